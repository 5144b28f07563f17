"""Rules about key objects: import, export, public export, thumbprints,
equality, certificates."""
import ast

from ..terms import T, C, NONE, is_const, cval, subterms, show
from ..query import callee, method_of, alts_of, strip_text
from ..runs import run, param, isinst
from ..state import HObj
from ..project import AnalysisBroken
from .hygiene import secret, dict_entries, SECRET_NAMES, functions
from .token import const_in

JWK = "jwkest.jwk."
BYNAME = "jwkest.ecc.NISTEllipticCurve.by_name"
PLAIN = ("jwkest.as_bytes", "jwkest.as_unicode")
COMMON = ("kty", "alg", "use", "kid", "x5c", "x5t", "x5u", "x5t#S256",
          "key_ops")
PUBLIC = {"RSAKey": COMMON + ("n", "e"), "ECKey": COMMON + ("crv", "x", "y")}
# every member set a JWK comes with
JWKS = (
    ("RSAKey", "RSA", ("n", "e")),
    ("RSAKey", "RSA", ("n", "e", "d")),
    ("RSAKey", "RSA", ("n", "e", "d", "p", "q")),
    ("RSAKey", "RSA", ("n", "e", "d", "p", "q", "dp", "dq", "qi")),
    ("ECKey", "EC", ("crv", "x", "y")),
    ("ECKey", "EC", ("crv", "x", "y", "d")),
    ("SYMKey", "oct", ("k",)),
)
RSA_ORDER = ("n", "e", "d", "p", "q")
B64 = ("base64_to_long", "base64url_to_long", "b64d", "urlsafe_b64decode",
       "deser")
B64E = ("long_to_base64", "b64e", "urlsafe_b64encode", "b64encode")
# these do not give the text they are called on
CHANGES = ("lower", "upper", "title", "capitalize", "swapcase", "replace",
           "strip", "lstrip", "rstrip", "translate")


def data(I, st, v):
    """python data as abstract containers"""
    if isinstance(v, dict):
        f = {}
        for k in v:
            st, f[C(k)] = data(I, st, v[k])
        o = HObj("dict", fields=f)
    elif isinstance(v, list):
        items = []
        for x in v:
            st, y = data(I, st, x)
            items.append(y)
        o = HObj("list", items=tuple(items))
    else:
        return st, v
    return I.alloc(st, o, ast.Module([], []), I.entry_frame())


def given(v):
    return lambda I, st: data(I, st, v)


def leaves(t):
    return frozenset(u.args[0] for u in subterms(t) if u.op == "param")


def called(t, names):
    for u in subterms(t):
        if u.op != "call":
            continue
        q = callee(u)
        if q is not None and q.rsplit(".", 1)[-1] in names:
            return True
        f = u.args[0]
        if f.op == "ext" and f.args[0].rsplit(".", 1)[-1] in names:
            return True
        r, n = method_of(u)
        if n in names:
            return True
    return False


def turned(t):
    for u in subterms(t):
        if is_const(u):
            v = cval(u)
            if isinstance(v, str) and (v == "little" or v.startswith("<")):
                return True
        if u.op == "slice" and len(u.args) > 3 and const_in(u.args[3], (-1,)):
            return True
    return False


def own(t, name):
    """decoded from the member of this name and from nothing else"""
    return leaves(t) == frozenset([name]) and called(t, B64) and \
        not turned(t) and not called(t, CHANGES[:6])


def falsy(facts, t):
    """the path took t for empty or zero"""
    return (T("truthy", t), False) in facts


def impossible(facts):
    """the path took a member for empty, which is assumed to be given"""
    return any(no_length(f) for f in facts)


def no_length(fact):
    a, p = fact
    if a.op == "dnf" and p:
        return all(any(no_length(x) for x in d) for d in a.args[0])
    if p or a.op not in ("cmp", "truthy"):
        return False
    if a.op == "cmp" and not (a.args[0] == "lt" and
                              const_in(a.args[1], (0,))):
        return False
    x = a.args[-1]
    return x.op == "call" and x.args[0].op == "builtin" and \
        x.args[0].args[0] == "len" and len(leaves(x)) == 1 and \
        not called(x, B64)


def fields_of(v):
    return dict((k, x) for k, x in v.args[2]) if v.op == "objv" else {}


def strings(names, kind="str"):
    out = []
    for n in names:
        out.append((isinst(param(n), kind), True))
        out.append((T("truthy", param(n)), True))
    return out


def c27(W, rep):
    W.key_attrs()
    imports(W, rep)
    bundles(W, rep)
    exports(W, rep)
    wrapped(W, rep)
    curves(W, rep)


def imports(W, rep):
    I = W.interp([BYNAME], names=16, noopaque=PLAIN)
    for cls, kty, ms in JWKS:
        d = dict((m, param(m)) for m in ms)
        d.update(kty=C(kty), kid=param("kid"), use=param("use"),
                 alg=param("alg"), other=param("other"))
        for enc in (C("utf-8"), NONE):
            var = "%s %s enc=%s" % (kty, ",".join(ms), cval(enc))
            r = run(I, None, JWK + "keyrep", [("kspec", given(d)),
                                              ("enc", enc)],
                    assume=strings(ms + ("kid", "use", "alg", "other")))
            rep.stat(I)
            full = 0
            for st, v in r.values():
                f = fields_of(v)
                ok = v.op == "objv" and v.args[0] == JWK + cls
                rep.ob("key-class", r.entry, ok, var,
                       "a %s key becomes %s" % (kty, show(v, 2)[:80]))
                if not ok:
                    continue
                full += imported(rep, r.entry, st, cls, ms, f, var)
                for m in ("kid", "use", "alg"):
                    x = f.get(m, NONE)
                    rep.ob("attribute", r.entry, leaves(x) == frozenset([m])
                           and not called(x, B64), "%s %s" % (var, m),
                           "%s of the key is %s" % (m, show(x, 4)[:100]))
                x = f.get("kty", NONE)
                rep.ob("attribute", r.entry, const_in(x, (kty,)), var + " kty",
                       "kty of the key is %s" % show(x, 3)[:80])
            rep.ob("importable", r.entry, full > 0, var,
                   "no path makes a key object of all the members given")


def imported(rep, where, st, cls, ms, f, var):
    """the members of one imported key; 1 if all of them took part"""
    vals = dict((m, f.get(m, NONE)) for m in ms)
    if impossible(st.facts) or any(falsy(st.facts, vals[m]) for m in ms):
        return 0
    if cls == "SYMKey":
        k = f.get("key", NONE)
        if falsy(st.facts, vals["k"]) or falsy(st.facts, param("k")):
            return 0
        rep.ob("member", where, own(k, "k"), var + " k",
               "the key is %s" % show(k, 5)[:120])
        return 1
    for m in ms:
        if m == "crv":
            x = f.get("curve", NONE)
            ok = leaves(x) == frozenset(["crv"]) and callee(x) == BYNAME
        else:
            x = vals[m]
            ok = own(x, m)
        rep.ob("member", where, ok, "%s %s" % (var, m),
               "%s is %s" % (m, show(x, 5)[:120]))
    if cls == "RSAKey":
        want = [m for m in RSA_ORDER if m in ms]
        k = f.get("key", NONE)
        made = [construct_args(x) for x in alts_of(k)]
        # joined paths: some may have left out members that are zero
        ok = all(i is not None and in_order(i, want, vals) for i in made) \
            and any(i and len(i) == len(want) for i in made)
        rep.ob("member", where, ok, var + " key",
               "the RSA key is made of %s, not of %s" % (
                   show(k, 6)[:200], ", ".join(want)))
    return 1


def in_order(items, want, vals):
    """the items are some of the members wanted, in that order"""
    rest = iter(want)
    return items[:1] and all(
        any(x is vals[m] or own(x, m) for m in rest) for x in items)


def construct_args(k):
    c = k.args[0] if k.op == "fresh" else k
    if c.op != "call" or c.args[0].op != "ext" or \
            not c.args[0].args[0].endswith("RSA.construct"):
        return None
    a = list(c.args[1]) + [v for n, v in c.args[2] if n == "rsa_components"]
    a = a[:1]
    while a and a[0].op == "call" and a[0].args[0].op == "builtin" and \
            a[0].args[0].args[0] in ("tuple", "list") and a[0].args[1]:
        a = [a[0].args[1][0]]
    if not a:
        return None
    if a[0].op == "tuple":
        return list(a[0].args)
    if a[0].op == "listv" and not a[0].args[1]:
        return list(a[0].args[0])
    return None


def bundles(W, rep):
    """every key of a JWK set is loaded, in order, and every key dumped"""
    I = W.interp([JWK + "keyrep"], names=16)
    sets = {"keys": [param("k1"), param("k2"), param("k3")]}
    for m, arg in (("load_dict", given(sets)),):
        r = run(I, JWK + "KEYS", m, [("dikt", arg)], ctor=[])
        rep.stat(I)
        for st, v in r.res:
            ks = I.freeze(st, I.obj(st, r.ref).fields["_keys"])
            got = list(ks.args[0]) if ks.op == "listv" and \
                not ks.args[1] else []
            ok = len(got) == 3 and all(
                callee(x) == JWK + "keyrep" and
                leaves(x) == frozenset(["k%d" % (i + 1)])
                for i, x in enumerate(got))
            rep.ob("bundle", r.entry, ok, "all keys of the set",
                   "the keys loaded are %s" % show(ks, 5)[:200])
        rep.ob("importable", r.entry, len(r.res) > 0, "three keys")
    r = run(I, JWK + "KEYS", "load_jwks", ["jwks"], ctor=[])
    rep.stat(I)
    I2 = W.interp([JWK + "KEYS.load_dict", JWK + "keyrep"], names=16)
    r = run(I2, JWK + "KEYS", "load_jwks", ["jwks"], ctor=[])
    rep.stat(I2)
    for st, v in r.res:
        done = [e for e in r.events if e.kind == "call" and any(
            hasattr(x, "op") and callee(x) == JWK + "KEYS.load_dict"
            for x in e.data)]
        ok = True
        for e in done:
            for x in e.data:
                if hasattr(x, "op") and callee(x) == JWK + "KEYS.load_dict":
                    ok = ok and leaves(x) >= frozenset(["jwks"])
        rep.ob("bundle", r.entry, ok, "load_dict of the parsed text",
               "load_dict is called with something else")
    r = run(W.interp(names=16), JWK + "KEYS", "dump_jwks", [])
    rep.stat(r.I)
    n = 0
    for st, v in r.values():
        n += 1
        if v.op != "call":
            rep.ob("bundle", r.entry, False, "dump", show(v, 3)[:80])
            continue
        maps = [u for u in subterms(v) if u.op == "map"]
        ok = any(method_of(s)[1] == "serialize" or
                 (callee(s) or "").endswith(".serialize")
                 for m in maps for s in subterms(m) if s.op == "call")
        rep.ob("bundle", r.entry, ok, "every key is dumped",
               "the set written is %s" % show(v, 8)[:200])
    rep.ob("importable", r.entry, n > 0, "dump_jwks")


def selfattrs(t):
    """names of the attributes of the key object a value depends on"""
    out = set()
    for u in subterms(t):
        if u.op == "param" and u.args[0].startswith("self."):
            out.add(u.args[0][5:].split(".")[0])
        elif u.op == "attr" and u.args[0].op == "param" and \
                u.args[0].args[0] == "self":
            out.add(u.args[1])
    return frozenset(out)


def exports(W, rep):
    """private=True gives every member, each made of its own attribute"""
    I = W.interp(names=16)
    for cls, ms in (("RSAKey", ("n", "e", "d", "p", "q", "dp", "dq", "qi")),
                    ("RSAKey", ("n", "e")),
                    ("ECKey", ("crv", "x", "y", "d")), ("SYMKey", ("k",))):
        for private in (True, False):
            if private and ms == ("n", "e"):
                continue
            I.done_ops = set()
            want = list(ms)
            if not private:
                want = [m for m in ms if m in PUBLIC.get(cls, ms)]
            # which attributes the object has is known from its class
            assume = []
            st, ref = I.new_symbolic(JWK + cls, havoc=True)
            o = I.obj(st, ref).fields
            for m in RSA_ORDER + ("dp", "dq", "di", "qi", "x", "y", "kid",
                                  "use", "alg", "key", "curve", "crv"):
                if m in o:
                    v = I.freeze(st, o[m])
                    if v.op in ("param", "attr"):
                        assume.append((T("truthy", v), True))
            r = run(I, JWK + cls, "serialize", [("private", C(private))],
                    assume=assume)
            rep.stat(I)
            var = "%s private=%s" % (cls, private)
            n = 0
            for st, v in r.values():
                es = dict_entries(v)
                rep.ob("recognised", r.entry, es is not None, var,
                       "not a fixed set of members: %s" % show(v, 3)[:100])
                if es is None:
                    continue
                n += 1
                got = {}
                for ks, x, sure in es:
                    for k in ks:
                        got.setdefault(k, []).append(x)
                for m in want + ["kty", "kid", "use", "alg"]:
                    for x in got.get(m, [NONE]):
                        exported(rep, r.entry, cls, m, x, var)
            rep.ob("exportable", r.entry, n > 0, var, "no normal exit")


def exported(rep, where, cls, m, x, var):
    a = selfattrs(x)
    if called(x, CHANGES):
        a = None
    if m in ("kty", "kid", "use", "alg"):
        ok = a == frozenset([m]) and not called(x, B64E)
    elif m == "crv":
        ok = a == frozenset(["curve"]) or a == frozenset(["crv"])
    elif m == "k":
        ok = a in (frozenset(["key"]), frozenset(["k"])) and (
            called(x, B64E) or a == frozenset(["k"]))
    elif cls == "ECKey":
        # as long as the curve's numbers are
        ok = a == frozenset([m, "curve"]) and called(x, B64E) and \
            not turned(x)
    else:
        ok = a == frozenset([m]) and called(x, B64E) and not turned(x)
    rep.ob("exported", where, ok, "%s %s" % (var, m),
           "%s is exported as %s" % (m, show(x, 5)[:150]))


def wrapped(W, rep):
    """the attributes of a key made of a library key are that key's"""
    I = W.interp(names=16)
    r = run(I, JWK + "RSAKey", "load_key", ["key"], ctor=[])
    rep.stat(I)
    n = 0
    for st, v in r.res:
        o = I.obj(st, r.ref).fields
        n += 1
        for m in RSA_ORDER:
            x = I.freeze(st, o[m])
            ok = (x.op == "attr" and x.args[1] == m and
                  x.args[0] is param("key")) or (
                m not in ("n", "e") and is_const(x) and not cval(x)) or (
                x.op == "param" and x.args[0] == "key." + m)
            rep.ob("wrapped", r.entry, ok, m,
                   "%s of the key becomes %s" % (m, show(x, 4)[:100]))
        k = I.freeze(st, o["key"])
        rep.ob("wrapped", r.entry, k is param("key"), "key",
               "the key is %s" % show(k, 4)[:100])
    rep.ob("importable", r.entry, n > 0, "load_key")


def curves(W, rep):
    """the name, the size and the number of octets of each curve agree"""
    I = W.interp(names=16)
    for name, bits in (("P-256", 256), ("P-384", 384), ("P-521", 521)):
        for x in (name, name.encode()):
            r = run(I, None, BYNAME, [("name", C(x))])
            rep.stat(I)
            n = 0
            for st, v in r.values():
                n += 1
                f = fields_of(v)
                rep.ob("curve", r.entry, const_in(f.get("bits", NONE),
                                                  (bits,)), repr(x),
                       "bits is %s" % show(f.get("bits", NONE), 3))
                rep.ob("curve", r.entry, const_in(
                    f.get("bytes", NONE), ((bits + 7) // 8,)), repr(x),
                    "octets: %s" % show(f.get("bytes", NONE), 4))
            rep.ob("importable", r.entry, n > 0, repr(x), "no such curve")
    r = run(I, "jwkest.ecc.NISTEllipticCurve", "int2bytes", ["x"])
    for st, v in r.values():
        ok = leaves(v) >= frozenset(["x"]) and "bytes" in selfattrs(v) \
            and not turned(v)
        rep.ob("curve", r.entry, ok, "padded to the size of the curve",
               "a coordinate becomes %s" % show(v, 4)[:100])


# -- C15 ---------------------------------------------------------------------
def c15(W, rep):
    W.key_attrs()
    I = W.interp(names=16)
    for cls in sorted(PUBLIC):
        base = JWK + cls
        if base not in I.classes:
            raise AnalysisBroken("class %s has vanished" % base)
        for what, ps, falsep in (
                ("default", [], False), ("False", [("private", C(False))],
                                         False),
                ("None", [("private", NONE)], False),
                ("symbolic", ["private"], True)):
            I.done_ops = set()
            assume = [(T("truthy", param("private")), False)] if falsep \
                else []
            r = run(I, base, "serialize", ps, assume=assume)
            rep.stat(I)
            public_result(rep, r, cls, "%s private: %s" % (cls, what))
        # string form of the public copy
    public_copy(W, rep)
    public_import(W, rep)
    dumps(W, rep)


def public_result(rep, r, cls, var):
    n = 0
    for st, v in r.values():
        n += 1
        es = dict_entries(v)
        rep.ob("recognised", r.entry, es is not None, var,
               "the members exported are not a fixed set: %s" %
               show(v, 3)[:120])
        for ks, x, sure in es or ():
            for k in ks:
                rep.ob("public-member", r.entry, k in PUBLIC[cls],
                       "%s %s" % (var, k), "exports the member %s" % k)
            s = secret(x, True)
            rep.ob("public-value", r.entry, s is None,
                   "%s %s" % (var, ",".join(map(str, ks))),
                   "shows a secret: %s" % (s and show(s, 4)[:120]))
    rep.ob("exportable", r.entry, n > 0, var, "no normal exit")


def public_import(W, rep):
    """key_from_jwk_dict(.., private=False) leaves the private members"""
    q = JWK + "key_from_jwk_dict"
    for cls, kty, ms in JWKS:
        if cls not in PUBLIC or "d" not in ms:
            continue
        d = dict((m, param(m)) for m in ms + ("kid",))
        d["kty"] = C(kty)
        I = W.interp(names=16)
        r = run(I, None, q, [("jwk_dict", given(d)), ("private", C(False))],
                assume=strings(ms + ("kid",)))
        rep.stat(I)
        for st, v in r.values():
            got = leaves(v) & (frozenset(ms) - frozenset(PUBLIC[cls]))
            rep.ob("public-import", q, not got, "%s %s" % (
                kty, ",".join(ms)), "the public key is made of %s" %
                ", ".join(sorted(got)))
        rep.ob("exportable", q, len(r.res) > 0, kty, "no normal exit")


def public_copy(W, rep):
    q = JWK + "make_public_copy"
    for cls in sorted(PUBLIC):
        I = W.interp(names=16)

        def key(I, st, cls=cls):
            st, ref = I.new_symbolic(JWK + cls, havoc=True)
            return st, ref
        r = run(I, None, q, [("key", key)])
        rep.stat(I)
        n = 0
        for st, v in r.values():
            f = fields_of(v)
            n += 1
            rep.ob("recognised", q, v.op == "objv", cls, show(v, 2)[:100])
            for k, x in sorted(f.items()):
                if k not in SECRET_NAMES:
                    continue
                ok = (is_const(x) and not cval(x)) or secret(
                    x, True) is None
                rep.ob("public-copy", q, ok, "%s %s" % (cls, k),
                       "the public copy has %s" % show(x, 4)[:100])
        rep.ob("exportable", q, n > 0, cls, "no normal exit")


def dumps(W, rep):
    """nothing but to_dict asks a key for its private members"""
    I = W.interp()
    n = 0
    for q, f in functions(W):
        if q.startswith(("jwkest.jwk.Key.to_dict",)) or \
                q.endswith("._test"):
            continue
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call) or not isinstance(
                    c.func, ast.Attribute):
                continue
            if c.func.attr == "to_dict" and not (
                    f.cls and JWK + "Key" in I.mro(f.cls)):
                rep.ob("public-call", q, False, "to_dict",
                       "%s takes the private members" % q)
            if c.func.attr != "serialize":
                continue
            n += 1
            args = list(c.args) + [k.value for k in c.keywords]
            bad = [a for a in args if not (
                isinstance(a, ast.Constant) and not a.value)]
            names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
            # a parameter of the function: the caller's decision
            bad = [a for a in bad if not (isinstance(a, ast.Name) and
                                          a.id in names)]
            rep.ob("public-call", q, not bad, "serialize",
                   "%s asks for the private members" % q)
    if not n:
        raise AnalysisBroken("serialize is not called anywhere")


# -- C23 ---------------------------------------------------------------------
def c23(W, rep):
    """a certificate is used only if it is the one x5t names"""
    W.key_attrs()
    I = W.interp([JWK + "der2rsa"], names=16, noopaque=PLAIN)
    jobs = []
    for enc in (C("utf-8"), NONE):
        d = dict(kty=C("RSA"), x5c=[param("c0"), param("c1")],
                 x5t=param("x5t"))
        jobs.append(("keyrep enc=%s" % cval(enc), run(
            I, None, JWK + "keyrep", [("kspec", given(d)), ("enc", enc)],
            assume=strings(("c0", "c1", "x5t"))), True))
        d = dict(kty=C("RSA"), x5c=[param("c0")])
        jobs.append(("keyrep without x5t enc=%s" % cval(enc), run(
            I, None, JWK + "keyrep", [("kspec", given(d)), ("enc", enc)],
            assume=strings(("c0",))), False))
    for var, r, named in jobs:
        rep.stat(r.I)
        n = 0
        for st, v in r.values():
            f = fields_of(v)
            k = f.get("key", NONE)
            if k is NONE and impossible(st.facts):
                continue
            n += 1
            ok = leaves(k) == frozenset(["c0"])
            rep.ob("certificate", r.entry, ok, var + " key",
                   "the key comes from %s" % show(k, 5)[:150])
            for m in ("n", "e"):
                x = f.get(m, NONE)
                rep.ob("certificate", r.entry, x.op == "attr" and
                       x.args[1] == m and x.args[0] is k, "%s %s" % (var, m),
                       "%s is %s" % (m, show(x, 5)[:150]))
            if named:
                rep.ob("thumbprint-checked", r.entry,
                       named_by(st.facts, k), var,
                       "the certificate is used although its SHA-1 digest "
                       "was not found equal to x5t")
        rep.ob("importable", r.entry, n > 0, var, "no normal exit")
    # the same for deserialize, called on its own
    r = run(I, JWK + "RSAKey", "deserialize", [], assume=[
        (T("truthy", param("self.x5t")), True),
        (isinst(param("self.x5t"), "str"), True)])
    rep.stat(I)
    n = 0
    for st, v in r.res:
        k = I.freeze(st, I.obj(st, r.ref).fields["key"])
        if leaves(k) != frozenset(["self.x5c"]):
            continue
        n += 1
        rep.ob("thumbprint-checked", r.entry, named_by(
            st.facts, k, "self.x5t"), "deserialize",
            "the certificate is used although its SHA-1 digest was not "
            "found equal to x5t")
    rep.ob("importable", r.entry, n > 0, "deserialize", "no normal exit")


def named_by(facts, key, x5t="x5t"):
    inside = frozenset(subterms(key))
    for a, p in facts:
        if a.op == "dnf":
            # on every branch
            if p and all(named_by(d, key, x5t) for d in a.args[0]):
                return True
            continue
        if not p:
            continue
        if any(u.op in ("slice", "item") and leaves(u) <= leaves(a) and
               u not in inside for u in subterms(a)):
            continue
        if a.op == "truthy" and not called(a, ("compare_digest",)):
            continue
        got = name = False
        for u in subterms(a):
            if u.op in ("call", "fresh") and leaves(u) == frozenset([x5t]) \
                    and called(u, B64):
                name = True
            if u.op == "upd" and sha(u) == "sha1" and u.args[1] in inside:
                got = True
            if u.op == "call" and u.args[0].op == "ext" and \
                    sha(u) == "sha1" and u.args[1] and \
                    u.args[1][0] in inside:
                got = True
        if got and name and (a.op == "cmp" and a.args[0] == "eq" or
                             a.op == "truthy"):
            return True
    return False


HASHES = ("sha1", "sha224", "sha256", "sha384", "sha512", "md5")


def sha(t):
    """the hash function whose object t is"""
    while t.op in ("upd", "fresh"):
        t = t.args[0]
    if t.op == "call" and t.args[0].op == "ext":
        n = t.args[0].args[0].lower()
        if n.endswith(".new") and t.args[0].args[0].startswith("hashlib") \
                and t.args[1] and is_const(t.args[1][0]):
            n = str(cval(t.args[1][0])).lower().replace("-", "")
        for h in HASHES:
            if n.rsplit(".", 1)[-1] == h or n.endswith("." + h + ".new"):
                return h
    return None


# -- C24 ---------------------------------------------------------------------
REQUIRED = {"RSAKey": ("e", "kty", "n"), "ECKey": ("crv", "kty", "x", "y"),
            "SYMKey": ("k", "kty")}
FROM = {"k": (("key",), ("k",)), "x": (("x", "curve"),),
        "y": (("y", "curve"),), "crv": (("curve",), ("crv",))}
COMPARED = {"RSAKey": (("kty",), ("n",), ("e",)),
            "ECKey": (("kty",), ("crv", "curve"), ("x",), ("y",)),
            "SYMKey": (("kty",), ("k", "key"))}
NAMES = {"SHA-256": "sha256", "SHA-384": "sha384", "SHA-512": "sha512"}
ATTRS = ("n", "e", "d", "p", "q", "x", "y", "k", "key", "crv", "curve",
         "kty", "kid")


def c24(W, rep):
    W.key_attrs()
    I = W.interp(names=16)
    for cls in sorted(REQUIRED):
        st, ref = I.new_symbolic(JWK + cls, havoc=True)
        o = I.obj(st, ref).fields
        assume = []
        for m in ATTRS:
            if m in o:
                v = I.freeze(st, o[m])
                if v.op in ("param", "attr"):
                    assume.append((T("truthy", v), True))
        for h in sorted(NAMES):
            r = run(I, JWK + cls, "thumbprint", [("hash_function", C(h))],
                    assume=assume)
            rep.stat(I)
            n = 0
            for st, v in r.values():
                n += 1
                digest(rep, r.entry, cls, h, v)
            rep.ob("computable", r.entry, n > 0, "%s %s" % (cls, h),
                   "no normal exit")
        equality(W, rep, cls)
        hashed(W, rep, cls, assume)


def text_of(t, out):
    """a string as literals and values, in order"""
    t = strip_text(t)
    if is_const(t):
        v = cval(t)
        out.append(v.decode("utf-8") if isinstance(v, bytes) else str(v))
    elif t.op == "cat":
        for x in t.args if not isinstance(t.args[0], tuple) else t.args[0]:
            text_of(x, out)
    elif t.op == "fmt" and is_const(t.args[0]):
        f = cval(t.args[0])
        args = list(t.args[1:])
        lit = ""
        i = 0
        while i < len(f):
            if f[i:i + 2] in ("{{", "}}", "%%"):
                lit += f[i]
                i += 2
            elif f[i:i + 2] in ("{}", "%s") and args:
                out.append(lit)
                lit = ""
                text_of(args.pop(0), out)
                i += 2
            elif f[i:i + 3] == "{%d}" % (len(t.args) - 1 - len(args)) \
                    and args:
                out.append(lit)
                lit = ""
                text_of(args.pop(0), out)
                i += 3
            else:
                lit += f[i]
                i += 1
        out.append(lit)
    else:
        out.append(t)
    return out


def joined(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def is_dumps(t):
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].args[0] in ("json.dumps",) and len(t.args[1]) == 1


def json_members(t):
    """[(name, value)] of the JSON text t, in order; None: not canonical"""
    t = strip_text(t)
    if is_dumps(t):
        kw = dict(t.args[2])
        sep = kw.get("separators", NONE)
        if sep.op not in ("tuple", "listv"):
            return None
        sep = sep.args if sep.op == "tuple" else sep.args[0]
        d = t.args[1][0]
        if len(sep) != 2 or not const_in(sep[0], (",",)) or \
                not const_in(sep[1], (":",)):
            return None
        es = dict_entries(d)
        if es is None or not all(s and len(k) == 1 for k, v, s in es):
            return None
        ms = [(k[0], v) for k, v, s in es]
        if const_in(kw.get("sort_keys", NONE), (True,)):
            ms.sort(key=lambda x: x[0])
        return ms
    parts = joined(text_of(t, []))
    out = []
    name = None
    for i, p in enumerate(parts):
        if isinstance(p, str):
            if i == len(parts) - 1:
                if p not in ("}", '"}'):
                    return None
                continue
            lead = "{" if i == 0 else ","
            quoted = p.endswith('"') and not p.endswith(':"')
            p = p[1:] if i and p.startswith('"') else p
            if not p.startswith(lead + '"') or not (
                    p.endswith('":') or p.endswith('":"')):
                return None
            name = p[2:].split('"')[0]
            if p not in (lead + '"' + name + '":', lead + '"' + name + '":"'):
                return None
        else:
            v = p
            if name is None:
                return None
            if is_dumps(v) and not v.args[2]:
                v = v.args[1][0]
            out.append((name, v))
            name = None
    return out


def digest(rep, where, cls, h, v):
    t = v
    r, n = method_of(t)
    if n == "digest":
        t = r
    algo = sha(t)
    rep.ob("thumbprint-hash", where, n == "digest" and algo == NAMES[h],
           "%s %s" % (cls, h), "the digest is %s" % show(v, 3)[:100])
    data_ = None
    if t.op == "upd":
        data_ = t.args[1]
    elif t.op == "call" and t.args[1]:
        data_ = t.args[1][-1]
    ms = json_members(data_) if data_ is not None else None
    rep.ob("thumbprint-text", where, ms is not None, "%s canonical" % cls,
           "what is hashed is not the canonical JSON object: %s" %
           show(v, 9)[:300])
    if ms is None:
        return
    names = tuple(k for k, x in ms)
    rep.ob("thumbprint-members", where, names == REQUIRED[cls],
           "%s: %s" % (cls, ",".join(names)),
           "the members hashed are %s, RFC 7638 asks for %s" % (
               ", ".join(names), ", ".join(REQUIRED[cls])))
    for k, x in ms:
        src = selfattrs(x)
        ok = any(src == frozenset(f) for f in FROM.get(k, ((k,),)))
        if k not in ("kty", "crv"):
            ok = ok and called(x, B64E)
        ok = ok and not called(x, CHANGES)
        rep.ob("thumbprint-value", where, ok, "%s %s" % (cls, k),
               "%s is hashed as %s" % (k, show(x, 4)[:100]))


def equality(W, rep, cls):
    I = W.interp(names=16)
    r = run(I, JWK + cls, "__eq__", ["other"])
    rep.stat(I)
    n = 0
    for st, v in r.values():
        if is_const(v) and not cval(v):
            continue
        n += 1
        facts = set(st.facts)
        if not is_const(v):
            facts.add((v, True))
        pairs = set()
        for a, p in facts:
            if p and a.op == "cmp" and a.args[0] == "eq":
                pairs.add(frozenset((attr_of(a.args[1]),
                                     attr_of(a.args[2]))))
        for ms in COMPARED[cls]:
            ok = any(frozenset((("self", m), ("other", m))) in pairs
                     for m in ms)
            rep.ob("equal-members", r.entry, ok, "%s %s" % (cls, ms[0]),
                   "two keys can be equal with different %s" % ms[0])
    rep.ob("computable", r.entry, n > 0, cls + " ==", "never equal")


def attr_of(t):
    if t.op == "param" and t.args[0].count(".") == 1:
        return tuple(t.args[0].split("."))
    if t.op == "attr" and t.args[0].op == "param":
        return (t.args[0].args[0], t.args[1])
    return None


def hashed(W, rep, cls, assume):
    """what the hash depends on is compared by =="""
    I = W.interp(names=16)
    ok_attrs = set(a for ms in COMPARED[cls] for a in ms)
    ok_attrs |= set(("key", "curve", "_hash", "kid", "use", "alg"))
    r = run(I, JWK + cls, "__hash__", [], assume=assume)
    rep.stat(I)
    n = 0
    for st, v in r.values():
        n += 1
        bad = selfattrs(v) - ok_attrs
        rep.ob("hash", r.entry, not bad, cls,
               "the hash depends on %s" % ", ".join(sorted(bad)))
    rep.ob("computable", r.entry, n > 0, cls + " hash", "no normal exit")
