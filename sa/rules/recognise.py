"""What is taken for a JWS or a JWE (C34); half hashes (C35)."""
from ..terms import T, C, NONE, is_const, cval, subterms, show
from ..query import entails, callee, method_of, alts_of
from ..runs import run, param
from .keys import leaves, turned, sha
from .token import const_in

JWSALGS = tuple(f + b for f in ("HS", "RS", "ES", "PS")
                for b in ("256", "384", "512")) + ("none",)
JWEALGS = ("RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "A128KW", "A192KW",
           "A256KW", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW",
           "ECDH-ES+A256KW", "dir", "A128GCMKW", "A192GCMKW", "A256GCMKW")
ENCS = ("A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM",
        "A192GCM", "A256GCM")


def strs(t):
    """the constants of a literal container, or None"""
    if is_const(t):
        v = cval(t)
        if isinstance(v, (tuple, frozenset, list)):
            return set(v)
        return None
    if t.op == "call" and t.args[0].op == "builtin" and t.args[0].args[0] in (
            "set", "frozenset", "tuple", "list", "keys", "sorted") and \
            len(t.args[1]) == 1:
        return strs(t.args[1][0])
    if t.op in ("listv", "setv") and not t.args[1]:
        xs = t.args[0]
    elif t.op == "tuple":
        xs = t.args
    elif t.op == "dictv":
        xs = [e[0] for e in t.args[0]]
    else:
        return None
    if not all(hasattr(x, "op") and is_const(x) for x in xs):
        return None
    return set(cval(x) for x in xs)


def member(t, name):
    """t is the header parameter of this name; typ may be in lower case"""
    while name == "typ":
        r, n = method_of(t)
        if n not in ("lower", "upper", "casefold"):
            break
        t = r
    if t.op in ("item", "idx", "get"):
        return any(hasattr(x, "op") and const_in(x, (name,))
                   for x in t.args)
    r, n = method_of(t)
    if n == "get" or n == "__getitem__":
        return bool(t.args[1]) and const_in(t.args[1][0], (name,))
    return const_name(t, name)


def const_name(t, name):
    return any(hasattr(x, "op") and is_const(x) and cval(x) == name
               for x in t.args)


def one_of(facts, name, allowed, none=False):
    """the path found the parameter to be one of these"""
    for a, p in facts:
        if not p or a.op != "cmp":
            continue
        op, x, y = a.args[:3]
        if op == "eq":
            for u, v in ((x, y), (y, x)):
                if is_const(u) and cval(u) in allowed and member(v, name):
                    return True
        elif op == "is" and none:
            for u, v in ((x, y), (y, x)):
                if u is NONE and member(v, name):
                    return True
        elif op == "in" and member(x, name):
            s = strs(y)
            if s is not None and s <= set(allowed):
                return True
    return False


def object_form(facts):
    """the path found the members of a JSON serialization"""
    seen = set()
    for a, p in facts:
        # a <= b is kept as not (b < a)
        if a.op == "cmp" and a.args[0] == "lt":
            seen |= strs(a.args[1] if p else a.args[2]) or set()
        if not p:
            continue
        if a.op == "cmp" and a.args[0] == "in" and is_const(a.args[1]):
            seen.add(cval(a.args[1]))
        if a.op == "truthy":
            r, n = method_of(a.args[0])
            if n == "issubset" and strs(r):
                seen |= strs(r)
            elif n == "issuperset" and a.args[0].args[1]:
                seen |= strs(a.args[0].args[1][0]) or set()
    return "payload" in seen and ("signature" in seen or "signatures" in seen)


def mentions(facts, words):
    got = set()
    for a, _ in facts:
        for u in subterms(a):
            if is_const(u) and isinstance(cval(u), str):
                got.add(cval(u))
    return set(words) <= got


def jws_form(fs):
    return object_form(fs) or one_of(fs, "alg", JWSALGS, True)


def jwe_form(fs):
    if one_of(fs, "typ", ("jwe", "JWE")):
        return True
    return one_of(fs, "alg", JWEALGS) and one_of(fs, "enc", ENCS)


def recognised(rep, r, st, v, goal, var, words):
    ok = entails(st.facts, goal)
    if not ok and all(mentions(st.facts, w) for w in words) and \
            not plain(st.facts):
        rep.note("undecided: %s: how the path tells the token" % r.entry)
        return
    rep.ob("is-one", r.entry, ok, var,
           "a token is taken for one on a path that did not find its %s" %
           " and ".join("/".join(w) for w in words))


def holds(I, st, v):
    """the state if what is returned is true"""
    if is_const(v):
        return st if cval(v) else None
    if v.op in ("objv", "tuple", "dictv"):
        return st
    return I.assume(st, v, True)


def plain(facts):
    """nothing but comparisons this rule can read"""
    for a, p in facts:
        for u in subterms(a):
            if u.op in ("loop", "mu", "elem", "unknown", "forall", "exists"):
                return False
    return True


def c34(W, rep):
    W.key_attrs()
    for opt in (False, True):
        I = W.interp(names=16, optimize=opt)
        mode = " -O" if opt else ""
        r = run(I, "jwkest.jws.JWS", "is_jws", ["jws"])
        rep.stat(I)
        yes = 0
        for st, v in r.res:
            w = I.freeze(st, v)
            st = holds(I, st, w)
            if st is None:
                continue
            yes += 1
            recognised(rep, r, st, w, jws_form, "is_jws" + mode,
                       (("alg",),))
            if entails(st.facts, lambda fs: one_of(fs, "alg", JWSALGS,
                                                   True)):
                o = I.freeze(st, I.obj(st, r.ref).fields.get("jwt", NONE))
                rep.ob("holds-token", r.entry,
                       leaves(o) == frozenset(["jws"]), "is_jws" + mode,
                       "the object is left with %s" % show(o, 3)[:120])
        rep.ob("answers", r.entry, yes > 0, "is_jws" + mode,
               "no path answers yes")
        r = run(I, "jwkest.jwe.JWEnc", "is_jwe", [])
        rep.stat(I)
        yes = 0
        for st, v in r.values():
            st = holds(I, st, v)
            if st is None:
                continue
            yes += 1
            recognised(rep, r, st, v, jwe_form, "is_jwe" + mode,
                       (("alg", "enc"),))
        rep.ob("answers", r.entry, yes > 0, "is_jwe" + mode,
               "no path answers yes")
        for q, goal, words in (
                ("jwkest.jws.factory", jws_form, (("alg",),)),
                ("jwkest.jwe.factory", jwe_form, (("alg", "enc"),))):
            r = run(I, None, q, ["token"])
            rep.stat(I)
            yes = 0
            for st, v in r.values():
                if is_const(v) and not cval(v):
                    continue
                yes += 1
                recognised(rep, r, st, v, goal, q + mode, words)
                if goal is jws_form and not entails(
                        st.facts, lambda fs: one_of(fs, "alg", JWSALGS,
                                                    True)):
                    continue
                f = dict((k, x) for k, x in v.args[2]) \
                    if v.op == "objv" else {}
                o = f.get("jwt", NONE)
                rep.ob("holds-token", q, leaves(o) == frozenset(["token"]),
                       q + mode, "the object is left with %s" %
                       show(o, 3)[:120])
            rep.ob("answers", q, yes > 0, q + mode, "no path answers yes")


def c35(W, rep):
    I = W.interp(names=16)
    q = "jwkest.jws.left_hash"
    for func, h, half in (("HS256", "sha256", 16), ("HS384", "sha384", 24),
                          ("HS512", "sha512", 32), (None, "sha256", 16)):
        r = run(I, None, q, ["msg"] + (
            [("func", C(func))] if func else []))
        rep.stat(I)
        for st, v in r.values():
            for a in alts_of(v):
                ok, why = half_hash(a, h, half)
                rep.ob("half-hash", q, ok, str(func), "%s: %s" % (
                    why, show(a, 7)[:160]))
        rep.ob("answers", q, len(r.res) > 0, str(func), "no normal exit")


def half_hash(v, h, half):
    if leaves(v) != frozenset(["msg"]):
        return False, "not of the message alone"
    cuts = []
    enc = False
    for u in subterms(v):
        if u.op == "slice":
            cuts.append(u)
        enc = enc or callee(u) == "jwkest.b64e" or (
            u.op == "call" and u.args[0].op == "ext" and
            u.args[0].args[0].endswith("urlsafe_b64encode"))
    cuts = [u for u in cuts if method_of(u.args[0])[1] == "digest"]
    if len(cuts) != 1:
        return False, "not a part of a digest"
    x, lo, hi, step = cuts[0].args
    if sha(method_of(x)[0]) != h:
        return False, "another hash than %s" % h
    if not (lo is NONE or const_in(lo, (0,))) or \
            not const_in(hi, (half, -half)) or \
            not (step is NONE or const_in(step, (1,))):
        return False, "not the left half"
    if turned(v):
        return False, "reversed"
    return enc, "not base64url"
