"""C12, C17, C21, C22, C25: where randomness comes from, the form of a token,
retrieval over the network, critical header parameters, constant time."""
import ast
import os
from ..project import AnalysisBroken
from ..query import (entails, callee, call_args, method_of, mentions, alts_of,
                     strip_text)
from ..terms import (T, C, NONE, TRUE, FALSE, is_const, cval, subterms, show,
                     children)
from ..report import parallel
from ..runs import run, param, isinst
from . import jws, jwe, kernels
from .token import const_in, intc, TRIM

VERIFY = ("verify_compact", "verify_compact_verbose")


# -- C22 -------------------------------------------------------------------------
def c22(W, rep):
    """no normal exit unless the protected header is free of crit"""
    def signed(rep, r):
        where = jws.where_end(r).split(" (")[0]
        for st, v in r.values():
            rep.ob("crit-refused", where, entails(
                st.facts, lambda fs: jwe.no_crit(fs, jws._tok), jwe.crit_rel),
                "accepting exit of %s" % r.entry,
                "[%s] a token with a crit header parameter is accepted" %
                r.variant)
    any_alg(W, rep, signed)
    jws.each_variant(W, rep, VERIFY, signed)

    def encrypted(rep, r):
        where = jws.where_end(r).split(" (")[0]
        for st, v in r.values():
            rep.ob("crit-refused", where, entails(
                st.facts, lambda fs: jwe.no_crit(fs, jwe._tok), jwe.crit_rel),
                "accepting exit of %s" % r.entry,
                "[%s] a token with a crit header parameter is decrypted" %
                r.variant)
    jwe.each_decrypt(W, rep, encrypted, direct=False)
    rep.floor("crit-refused", 20)

    c22_json(W, rep)


def c22_json(W, rep):
    # JSON: the entry's header member; the protected one is checked by the
    # compact verification every entry goes through (C01)
    for opt in (False, True):
        r = jws.json_run(W, opt)
        rep.stat(r.I)
        for e, kw in jws.vcalls(r):
            o = kw.get("self")
            if o is None or not mentions(o, unprotected):
                continue        # the entry has no header member
            rep.ob("crit-refused-json", jws.pos(W, e), entails(
                e.facts, unprotected_free, header_rel),
                "unprotected header of an entry",
                "an entry whose unprotected header has a crit parameter "
                "goes on to be verified")
    rep.floor("crit-refused-json", 2)


def unprotected(t):
    return jws.entry_member(t, "header") is not None


def unprotected_free(fs):
    return jws.not_in(fs, "crit", lambda c: any(
        unprotected(u) for u in subterms(c))) or \
        jws.falsy_any(fs, lambda t: unprotected(t) or crit_of(t)) or \
        jws.not_in(fs, "header", lambda c: jws.is_entry(c) or
                   jws.json_obj(c) or c.op == "dictv")


def crit_of(t):
    if t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] in ("kwget", "dget") and \
            len(t.args[1]) > 1 and const_in(t.args[1][1], ("crit",)):
        return any(unprotected(u) for u in subterms(t.args[1][0]))
    r, n = method_of(t)
    if n == "get" and t.args[1] and const_in(t.args[1][0], ("crit",)):
        return unprotected(r)
    return False


def header_rel(a):
    return any(const_in(u, ("crit", "header")) for u in subterms(a))


def any_alg(W, rep, fn):
    """tokens of any algorithm or none"""
    jobs = []
    for entry in VERIFY:
        for text, opt in jws.compact_variants(rep.tier):
            def job(rp, entry=entry, text=text, opt=opt):
                r = jws.compact_run(W, entry, text, opt)
                rp.stat(r.I)
                fn(rp, r)
            jobs.append(job)
    parallel(rep, jobs)


# -- C25 -------------------------------------------------------------------------
def c25(W, rep):
    """the comparison of a received tag looks at every byte of it"""
    for alg in kernels.signed_algs(W):
        if not alg.startswith("HS"):
            continue
        goal = kernels.accept_goal(alg, plain=False)
        any_goal = kernels.accept_goal(alg)
        k = kernels.Kernel(W, alg, "verify")
        rep.stat(k.I)
        for st, v, fs in kernels.accepting(k):
            if not entails(fs, any_goal):
                continue            # not an authentication at all: C07
            rep.ob("constant-time", k.where, entails(fs, goal),
                   "comparison of the %s tag" % alg,
                   "the tag is compared with == or by a loop that stops at "
                   "the first difference")

    def check(rep, r):
        where = jws.where_end(r).split(" (")[0]
        for st, v in r.values():
            ceks = set()
            for d in jwe.decryptions(v):
                if is_const(d):
                    ceks |= jwe.aes_keys(st.facts)
                else:
                    c = jwe.cek_of_decryption(d, r.enc)
                    if c is not None:
                        ceks.add(c)

            def goal(plain):
                return lambda fs: any(jwe.authenticated(
                    fs, r.enc, c, plain) for c in ceks)
            if not entails(st.facts, goal(True), jwe.auth_rel(ceks)):
                continue            # C10
            rep.ob("constant-time", where, entails(
                st.facts, goal(False), jwe.auth_rel(ceks)),
                "comparison of the authentication tag",
                "[%s] the tag is compared with == or by a loop that stops "
                "at the first difference" % r.variant)
    jwe.each_decrypt(W, rep, check)
    rep.floor("constant-time", 10)


# -- C17 -------------------------------------------------------------------------
ALPHABET = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
                     b"0123456789-_")
RAW = ("base64.", "binascii.")


def c17(W, rep):
    def signed(rep, r):
        form(W, rep, r, jws._tok, 3)
    any_alg(W, rep, signed)
    jws.each_variant(W, rep, VERIFY, signed)

    def encrypted(rep, r):
        form(W, rep, r, jwe._tok, 5)
    jwe.each_decrypt(W, rep, encrypted)
    rep.floor("number-of-parts", 20)
    codec(W, rep)


def form(W, rep, r, tok, n):
    where = jws.where_end(r).split(" (")[0]
    for st, v in r.values():
        rep.ob("number-of-parts", where, entails(
            st.facts, lambda fs: jwe.parts_exact(fs, tok, n)),
            "normal exit of %s" % r.entry,
            "[%s] text with another number of parts than %d is taken for a "
            "token" % (r.variant, n))
    seen = set()
    for st, v in r.values():
        bad = lenient(v, tok, seen)
        for a, p in st.facts:
            bad = bad or lenient(a, tok, seen)
        rep.ob("strict-decoder", where, bad is None, "parts of the token",
               "[%s] characters outside the alphabet are dropped from the "
               "token or a part of it: %s" % (r.variant, bad))


def lenient(t, tok, seen):
    """name of a decoder that skips foreign characters and is used on a part
    of the token"""
    todo = [t]
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if method_of(u)[1] in TRIM and (
                tok.is_text(u) or tok.part(method_of(u)[0]) is not None):
            return "%s() of the text" % method_of(u)[1]
        if u.op == "call" and u.args[0].op == "ext" and \
                u.args[0].args[0].startswith(RAW) and \
                tok.decoded(u) is not None:
            return u.args[0].args[0]
        todo.extend(children(u))
    return None


def codec(W, rep):
    q = "jwkest.b64d"
    I = W.interp((), noopaque=(q, "jwkest.add_padding"))
    p = param("b")
    r = run(I, None, q, ["b"], assume=[(isinst(p, "bytes"), True)])
    rep.stat(I)
    where = jws.where_end(r).split(" (")[0]
    n = 0
    for st, v in r.values():
        n += 1
        verdict = entails(st.facts, lambda fs: strict(fs, p))
        if not verdict and entails(st.facts, lambda fs: looked_at(fs, p)):
            rep.note("the check of the alphabet in b64d is of a form the "
                     "rules do not know")
            verdict = True
        rep.ob("alphabet", where, verdict, "normal exit of b64d",
               "text with characters outside the base64url alphabet is "
               "decoded: only characters A-Z a-z 0-9 - _ may be accepted")
        x = v
        ok = False
        if x.op == "call" and kernels.ext_is(
                x.args[0], "base64.urlsafe_b64decode") and x.args[1]:
            ok = padded(x.args[1][0], p)
        elif x.op == "call" and kernels.ext_is(
                x.args[0], "base64.b64decode") and x.args[1]:
            kw = dict(x.args[2])
            alt = x.args[1][1] if len(x.args[1]) > 1 else kw.get("altchars")
            ok = padded(x.args[1][0], p) and alt is not None and \
                const_in(alt, (b"-_", "-_"))
        elif not mentions(x, lambda u: u.op == "ext"):
            ok = False
        rep.ob("decodes", where, ok, "value of b64d",
               "the value is not the base64url decoding of the text: %s" %
               show(v, 4)[:120])
    rep.ob("decodes-something", where, n > 0, "b64d", "no text is decoded")
    q = "jwkest.b64e"
    I = W.interp((), noopaque=(q,))
    r = run(I, None, q, ["b"], assume=[(isinst(p, "bytes"), True)])
    rep.stat(I)
    where = jws.where_end(r).split(" (")[0]
    n = 0
    for st, v in r.values():
        n += 1
        rep.ob("encodes", where, unpadded(st.facts, v, p), "value of b64e",
               "not the base64url encoding without padding: %s" %
               show(v, 4)[:120])
    rep.ob("encodes-something", where, n > 0, "b64e", "never returns")


def bare(t, p):
    """p, possibly without its trailing = characters"""
    while True:
        r, m = method_of(t)
        if m in ("rstrip", "strip") and t.args[1] and \
                const_in(t.args[1][0], (b"=", "=")):
            t = r
            continue
        if t.op == "call" and t.args[0].op == "builtin" and \
                t.args[0].args[0] in ("bytes", "bytearray") and \
                len(t.args[1]) == 1:
            t = t.args[1][0]
            continue
        break
    return t is p


def loosely(t, p):
    while method_of(t)[1] in ("strip", "rstrip", "lstrip"):
        t = method_of(t)[0]
    return bare(t, p)


def padded(t, p):
    if bare(t, p):
        return True
    if t.op == "cat":
        xs = jwe.flat_cat(t.args)
        return bool(xs) and bare(xs[0], p) and all(
            padding(x) for x in xs[1:])
    return False


def padding(x):
    if is_const(x):
        return isinstance(cval(x), (bytes, str)) and \
            not cval(x).strip(b"=" if isinstance(cval(x), bytes) else "=")
    if x.op == "bin" and x.args[0] == "*":
        return any(is_const(y) and padding(y) and cval(y)
                   for y in (x.args[1], x.args[2]))
    if x.op in ("slice", "repeat"):
        return padding(x.args[0])
    if x.op == "alt":
        return all(padding(y) for y in x.args[0])
    return False


def unpadded(fs, v, p):
    r, m = method_of(v)
    if m in ("rstrip", "strip", "replace") and v.args[1] and \
            const_in(v.args[1][0], (b"=",)):
        if m == "replace" and not (len(v.args[1]) == 2 and
                                   const_in(v.args[1][1], (b"",))):
            return False
        x = r
        if x.op == "call" and x.args[0].op == "ext" and x.args[1]:
            if x.args[0].args[0] == "base64.urlsafe_b64encode":
                return bare_data(x.args[1][0], p)
            if x.args[0].args[0] == "base64.b64encode":
                kw = dict(x.args[2])
                alt = x.args[1][1] if len(x.args[1]) > 1 else \
                    kw.get("altchars")
                return bare_data(x.args[1][0], p) and alt is not None and \
                    const_in(alt, (b"-_",))
    return False


def bare_data(t, p):
    while t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] in ("bytes", "bytearray") and \
            len(t.args[1]) == 1:
        t = t.args[1][0]
    return t is p


def strict(fs, p):
    for a, pol in fs:
        if a.op == "truthy":
            c, good = a.args[0], pol
        elif a.op == "cmp" and a.args[0] in ("is", "eq") and \
                NONE in a.args[1:]:
            c = a.args[2] if a.args[1] is NONE else a.args[1]
            good = not pol
        else:
            continue
        v = regex_use(c, p)
        if v is None:
            continue
        how, pat, flags = v
        if how == "search" and not good and outside_only(pat, flags):
            return True
        if how in ("match", "fullmatch") and good and within(
                pat, flags, how):
            return True
    return False


def regex_use(c, p):
    """(match|search|fullmatch, pattern, flags) of a use of a regex on p"""
    if c.op == "fresh":
        c = c.args[0]
    r, m = method_of(c)
    if m in ("match", "search", "fullmatch") and r is not None and \
            r.op == "call" and kernels.ext_is(r.args[0], "re.compile"):
        if not c.args[1] or not bare(c.args[1][0], p):
            return None
        a = r.args[1]
        fl = a[1] if len(a) > 1 else dict(r.args[2]).get("flags")
        if a and is_const(a[0]):
            return m, cval(a[0]), fl
        return None
    if c.op == "call" and c.args[0].op == "ext" and c.args[0].args[0] in (
            "re.match", "re.search", "re.fullmatch"):
        a = c.args[1]
        if len(a) < 2 or not is_const(a[0]) or not bare(a[1], p):
            return None
        fl = a[2] if len(a) > 2 else dict(c.args[2]).get("flags")
        return c.args[0].args[0][3:], cval(a[0]), fl
    return None


def flag_value(fl):
    if fl is None:
        return 0
    return intc(fl)


def charset(items):
    """the bytes an IN node accepts, or None"""
    out = set()
    neg = False
    for op, av in items:
        op = str(op)
        if op == "NEGATE":
            neg = True
        elif op == "LITERAL":
            out.add(av)
        elif op == "RANGE":
            out |= set(range(av[0], av[1] + 1))
        elif op == "CATEGORY" and str(av) == "CATEGORY_DIGIT":
            out |= set(b"0123456789")
        elif op == "CATEGORY" and str(av) == "CATEGORY_WORD":
            out |= ALPHABET - set(b"-")
        else:
            return None
    return set(range(256)) - out if neg else out


def parse(pat, flags):
    import re._parser as sp
    v = flag_value(flags)
    if v is None or not isinstance(pat, bytes):
        return None
    if v & ~(256 | 64):         # ASCII, VERBOSE is not among them
        if v & ~(256):
            return None
    try:
        return list(sp.parse(pat, v & 256))
    except Exception:
        return None


def all_chars(seq, last):
    """every string the sequence matches up to the end consists of the
    alphabet; `last`: the end of the text must be pinned by an anchor"""
    end = False
    for op, av in seq:
        op = str(op)
        if op == "AT":
            if str(av) == "AT_END_STRING":
                end = True
            continue
        if op == "LITERAL":
            if av not in ALPHABET:
                return False
        elif op == "IN":
            s = charset(av)
            if s is None or not s <= ALPHABET:
                return False
        elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            if not all_chars(list(av[2]), False):
                return False
        elif op == "SUBPATTERN":
            if not all_chars(list(av[-1]), False):
                return False
        elif op == "BRANCH":
            if not all(all_chars(list(x), False) for x in av[1]):
                return False
        else:
            return False
    return end or not last


def within(pat, flags, how):
    seq = parse(pat, flags)
    return seq is not None and all_chars(seq, how == "match")


def outside_only(pat, flags):
    """a search for it finds every character outside the alphabet"""
    seq = parse(pat, flags)
    if seq is None or len(seq) != 1:
        return False
    op, av = seq[0]
    if str(op) in ("MAX_REPEAT", "MIN_REPEAT") and av[0] == 1 and \
            len(av[2]) == 1:
        op, av = list(av[2])[0]
    if str(op) == "NOT_LITERAL" or str(op) != "IN":
        return False
    s = charset(av)
    return s is not None and set(range(256)) - s <= ALPHABET


def looked_at(fs, p):
    """some condition on the content of p that is not one on its length, its
    padding or a regular expression"""
    for a, pol in fs:
        if a.op in ("forall", "done"):
            if mentions(a, lambda u: u is p):
                return True
            continue
        for u in subterms(a):
            if method_of(u)[1] in ("match", "search", "fullmatch") or \
                    kernels.ext_is(u, "re.match", "re.search",
                                   "re.fullmatch"):
                break
        else:
            if a.op == "cmp" and a.args[0] in ("eq", "is", "lt", "le"):
                x, y = a.args[1], a.args[2]
                if loosely(x, p) and loosely(y, p):
                    continue
                if all(not mentions(z, lambda u: u is p) or
                       only_length(z, p) for z in (x, y)):
                    continue
            if a.op in ("truthy", "isinst") and loosely(a.args[0], p):
                continue
            if mentions(a, lambda u: u is p):
                return True
    return False


def only_length(z, p):
    if z is p:
        return False
    if z.op == "call" and z.args[0].op == "builtin" and \
            z.args[0].args[0] == "len":
        return True
    if bare(z, p):
        return True
    ks = [k for k in children(z) if mentions(k, lambda u: u is p)]
    return bool(ks) and all(only_length(k, p) for k in ks)


# -- C21 -------------------------------------------------------------------------
GETTERS = ("requests.request", "requests.get", "requests.api.request",
           "requests.api.get")
BODY = ("text", "content", "raw", "iter_content", "json", "iter_lines")


def response(t):
    """t is the reply of an HTTP request"""
    if t.op == "fresh":
        t = t.args[0]
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].args[0] in GETTERS


def body(u):
    return u.op == "attr" and u.args[1] in BODY and response(u.args[0])


def ok_status(fs, rs):
    """every reply was found to have status 200"""
    have = set()
    for a, pol in fs:
        if pol and a.op == "cmp" and a.args[0] in ("eq", "is"):
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if x.op == "attr" and x.args[1] == "status_code" and \
                        intc(y) == 200:
                    have.add(x.args[0])
    return all(r in have for r in rs)


def replies(t):
    return set(u.args[0] for u in subterms(t) if body(u))


def status_rel(a):
    return any(u.op == "attr" and u.args[1] == "status_code"
               for u in subterms(a))


def c21(W, rep):
    W.key_attrs()
    ENTRY = (("load_x509_cert", None, "jwkest.jwk.load_x509_cert",
              ["url", "spec2key"], None),
             ("load_from_url", "jwkest.jwk.KEYS", "load_from_url", ["url"],
              ()),
             ("load_jwks_from_url", None, "jwkest.jwk.load_jwks_from_url",
              ["url"], None))
    for name, cls, fn, ps, ctor in ENTRY:
        I = W.interp(KEYREP)
        r = run(I, cls, fn, ps, ctor=ctor)
        rep.stat(I)
        where = jws.where_end(r).split(" (")[0]
        n = requests_of(W, rep, r, None)
        rep.ob("retrieves", where, n > 0, name, "no HTTP request is made")
        results(rep, r, where, name, strict=name != "load_x509_cert")
        for st, x in r.raised:
            pass
    # what the caller says about certificates of the server is respected
    I = W.interp(KEYREP)
    r = run(I, None, "jwkest.jwk.load_jwks_from_url", ["url", "verify"])
    rep.stat(I)
    requests_of(W, rep, r, param("verify"))
    results(rep, r, jws.where_end(r).split(" (")[0], "load_jwks_from_url")
    # the references of a header
    I = W.interp(KEYREP)
    r = run(I, "jwkest.jws.JWx", "_get_keys", [])
    rep.stat(I)
    for e in r.events:
        if e.kind == "call" and response(e.data[3]):
            kw = dict(plain(e.data[3]).args[2])
            transport(W, rep, e, kw, None)
            u = url_of(plain(e.data[3]))
            rep.ob("url-of-header", jws.pos(W, e),
                   u is not None and header_url(u), "address fetched",
                   "something else than the address in jku or x5u is "
                   "fetched: %s" % (u and show(u, 3)[:100]))
    results(rep, r, jws.where_end(r).split(" (")[0], "_get_keys",
            strict=False)
    rep.floor("certificate-verified", 4)


KEYREP = frozenset(["jwkest.jwk.keyrep"])


def plain(t):
    return t.args[0] if t.op == "fresh" else t


def url_of(t):
    a = t.args[1]
    short = t.args[0].args[0].rsplit(".", 1)[1]
    i = 0 if short == "get" else 1
    if len(a) > i:
        return a[i]
    return dict(t.args[2]).get("url")


def header_url(u):
    return any(x is param("self._dict") or jws.own_dict(x)
               for x in subterms(u)) and any(
        const_in(x, ("jku", "x5u")) for x in subterms(u))


def requests_of(W, rep, r, verify):
    n = 0
    for e in r.events:
        if e.kind != "call" or not response(e.data[3]):
            continue
        n += 1
        t = plain(e.data[3])
        u = url_of(t)
        rep.ob("url-as-asked", jws.pos(W, e), u is param("url"),
               "address fetched", "something else than the address the "
               "caller gave is fetched: %s" % (u and show(u, 3)[:100]))
        transport(W, rep, e, dict(t.args[2]), verify)
    return n


def transport(W, rep, e, kw, verify):
    v = kw.get("verify")
    if verify is not None:
        ok = v is verify
        what = "the caller's choice about certificates is not passed on"
    else:
        ok = v is None or v is TRUE
        what = "the server's certificate is not verified"
    rep.ob("certificate-verified", jws.pos(W, e), ok, "HTTP request",
           "%s: verify=%s" % (what, v and show(v, 3)[:80]))


def results(rep, r, where, name, strict=True):
    """what is made of a reply, on normal exits"""
    for st, v in r.res:
        out = [r.I.freeze(st, v)]
        if r.ref is not None:
            out.append(r.I.freeze(st, r.ref))
        rs = set()
        for x in out:
            rs |= replies(x)
        if strict:
            for a, p in st.facts:
                for u in subterms(a):
                    if response(u) and u.op == "fresh":
                        rs.add(u)
            got = any(a.op == "cmp" and status_rel(a) for a, p in st.facts)
            rep.ob("success-only", where, got and entails(
                st.facts, lambda fs: ok_status(fs, rs), status_rel),
                "normal exit of %s" % name,
                "the function returns normally although the reply was not "
                "found to have status 200")
        else:
            rep.ob("success-only", where, not rs or entails(
                st.facts, lambda fs: ok_status(fs, rs), status_rel),
                "value of %s" % name,
                "keys are made of a reply that was not found to have "
                "status 200")


# -- C12 -------------------------------------------------------------------------
# generators whose output can be predicted from the time or earlier output
WEAK_MODULES = ("random", "numpy.random", "_random")
GOOD = ("SystemRandom",)
# a salt is not a secret
EXEMPT = (("PBKDF2.py", "_makesalt"), ("PBKDF2.py", "crypt"))


def source_files(repo):
    out = []
    for d in ("src", "script"):
        for dp, dn, fn in os.walk(os.path.join(repo, d)):
            dn[:] = [x for x in dn if x not in ("__pycache__", "tests")]
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if f.endswith(".py") or (d == "script" and is_script(p)):
                    out.append(p)
    return out


def is_script(p):
    try:
        with open(p, "rb") as fh:
            head = fh.read(80)
    except OSError:
        return False
    return head.startswith(b"#!") and b"python" in head.split(b"\n")[0]


class Names(ast.NodeVisitor):
    """uses of a weak generator, by resolving imported names"""

    def __init__(self):
        self.alias = {}
        self.uses = []
        self.stack = []
        self.checked = 0

    def qual(self, n):
        if isinstance(n, ast.Name):
            return self.alias.get(n.id)
        if isinstance(n, ast.Attribute):
            b = self.qual(n.value)
            return None if b is None else b + "." + n.attr
        if isinstance(n, ast.Call):
            q = self.qual(n.func)
            nm = q or getattr(n.func, "id", None)
            if nm in ("__import__", "importlib.import_module",
                      "importlib.__import__") and n.args and isinstance(
                          n.args[0], ast.Constant):
                return str(n.args[0].value)
        return None

    def run(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.alias[a.asname] = a.name
                    else:
                        self.alias[a.name.split(".")[0]] = \
                            a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.alias[a.asname or a.name] = \
                        n.module + "." + a.name
        for rnd in range(3):
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Name):
                    q = self.qual(n.value)
                    if q is not None:
                        self.alias.setdefault(n.targets[0].id, q)
        self.visit(tree)

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Import(self, n):
        pass
    visit_ImportFrom = visit_Import

    def note(self, n):
        self.checked += 1
        q = self.qual(n)
        if q is None:
            return
        for m in WEAK_MODULES:
            if q.startswith(m + ".") and \
                    q[len(m) + 1:].split(".")[0] not in GOOD:
                self.uses.append((n.lineno, q, list(self.stack)))
                return

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.note(n)

    def visit_Attribute(self, n):
        self.note(n)
        if self.qual(n) is None:
            self.generic_visit(n)


def c12(W, rep):
    repo = W.project.repo
    n = 0
    for p in source_files(repo):
        rel = os.path.relpath(p, repo)
        with open(p, "rb") as fh:
            src = fh.read()
        try:
            tree = ast.parse(src)
        except SyntaxError:
            rep.note("%s is not Python 3 and was not read" % rel)
            continue
        v = Names()
        v.run(tree)
        n += 1
        for line, q, stack in v.uses:
            fn = stack[-1] if stack else "<module>"
            if (os.path.basename(p), fn) in EXEMPT or \
                    fn.startswith(("test_", "_test")):
                continue
            rep.ob("no-predictable-randomness", "%s:%d (%s)" % (
                rel, line, fn), False, q, "a generator that is not meant "
                "for cryptography is used")
        rep.ob("no-predictable-randomness", rel, True,
               "%d names resolved" % v.checked)
    rep.floor("no-predictable-randomness", 10)
