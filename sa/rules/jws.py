"""Rules about producing and consuming JSON Web Signatures."""
from ..terms import T, C, NONE, TRUE, FALSE, is_const, cval, subterms, children
from ..terms import show
from ..query import entails, callee, method_of, alts_of, strip_cmp_true
from ..query import strip_text, call_args, flat_atoms
from ..runs import KEYCLASSES, run, isinst, param
from ..project import AnalysisBroken
from ..report import parallel
from .token import Token, const_in, intc, none_alg, true_of, strip_json

JWS = "jwkest.jws.JWS"
VERIFY = (JWS + ".verify_compact", JWS + ".verify_compact_verbose")
VPARAMS = ["jws", "keys", "allow_none", "sigalg"]

_tok = Token(lambda t: t is param("jws"), 3)


def kernels(W, name):
    sc = W.signer_classes()
    ks = W.methods([c for c in sc.values() if c], name)
    if not ks:
        raise AnalysisBroken("no signer implements %s()" % name)
    return ks


def compact_variants(tier):
    out = []
    for text in (True, False):
        for opt in (False, True):
            out.append((text, opt))
    return out


def compact_run(W, entry, text, opt, extra=()):
    """verify_compact* with the signature primitives as opaque kernels"""
    K = kernels(W, "verify")
    I = W.interp(KEYCLASSES | K | set(extra), optimize=opt)
    r = run(I, JWS, entry, VPARAMS,
            "%s token%s" % ("text" if text else "byte", ", -O" if opt else ""),
            assume=[(isinst(param("jws"), "str"), text)])
    r.K = K
    return r


def kernel_call(t, K):
    """(receiver, msg, sig, key) of a call of a signature kernel"""
    if t.op == "fresh":
        t = t.args[0]
    if callee(t) in K and not t.args[2] and len(t.args[1]) == 4:
        return t.args[1]
    if callee(t) in K:
        a = list(t.args[1])
        kw = dict(t.args[2])
        for n in ("self", "msg", "sig", "key")[len(a):]:
            if n not in kw:
                return None
            a.append(kw[n])
        return tuple(a)
    return None


def sound_call(c, tok):
    return tok.prefix(c[1], 2) and tok.decoded(c[2]) == 2


def verified(fs, K, tok):
    """calls that the facts say have accepted the received signature"""
    for a, p in fs:
        t = strip_cmp_true(a, p)
        if t is None:
            continue
        c = kernel_call(t, K)
        if c is not None and sound_call(c, tok):
            yield c


def rel_kernel(K):
    def rel(a):
        if a.op in ("truthy", "done"):
            return callee(a.args[0]) in K
        if a.op == "cmp":
            return callee(a.args[1]) in K or callee(a.args[2]) in K
        return False
    return rel


def is_alg(tok):
    return lambda t: tok.header(t, "alg")


def unsigned_ok(fs, tok):
    return true_of(fs, lambda t: t is param("allow_none")) and \
        (none_alg(fs, is_alg(tok)) or alg_absent(fs, tok))


def alg_absent(fs, tok):
    for a, p in fs:
        if a.op == "cmp" and a.args[0] == "in" and not p and \
                const_in(a.args[1], ("alg",)) and tok.headers(a.args[2]):
            return True
    return False


def released_ok(facts, K, tok):
    def goal(fs):
        return any(True for _ in verified(fs, K, tok)) or \
            unsigned_ok(fs, tok)
    rk = rel_kernel(K)

    def rel(a):
        if rk(a):
            return True
        if a.op == "truthy" and a.args[0] is param("allow_none"):
            return True
        if a.op in ("cmp", "truthy"):
            return any(is_alg(tok)(u) for u in subterms(a)) or \
                (a.op == "cmp" and a.args[0] == "in" and
                 const_in(a.args[1], ("alg",)))
        return False
    if entails(facts, lambda fs: any(True for _ in verified(fs, K, tok)), rk):
        return True
    if entails(facts, lambda fs: unsigned_ok(fs, tok),
               lambda a: rel(a) and not rk(a)):
        return True
    return entails(facts, goal, rel)


def payload_of(v, tok):
    """is v nothing but the decoded payload?"""
    return all(tok.only_from(x, 1) for x in alts_of(v))


def dict_entries(v):
    """{key: value} of a frozen dict with constant keys, else None"""
    if v.op != "dictv" or v.args[1] or v.args[2] is not NONE:
        return None
    out = {}
    for k, x in v.args[0]:
        if not is_const(k):
            return None
        out[cval(k)] = x
    return out


def key_of(t):
    """the key object whose material is handed to a kernel"""
    r, n = method_of(t)
    if n == "get_key":
        return r
    if t.op == "call" and t.args[0].op in ("func",) and \
            t.args[0].args[0].endswith(".get_key") and t.args[1]:
        return t.args[1][0]
    return t


def where_end(r):
    return "%s (%s)" % (r.entry, r.variant)


# -- C01 --------------------------------------------------------------------
def c01_compact(W, rep, entry, text, opt):
    r = compact_run(W, entry, text, opt)
    I, K = r.I, r.K
    rep.stat(I)
    where = where_end(r)
    n = 0
    for st, v in r.values():
        n += 1
        ok = released_ok(st.facts, K, _tok)
        rep.ob("release-after-verify", where, ok,
               "normal return",
               "a normal return is reachable on which neither a signature "
               "check over the received header.payload succeeded nor the "
               "caller allowed an unsigned token; returned %s" %
               show(v, 4)[:200])
        d = dict_entries(v) if entry.endswith("verbose") else {"msg": v}
        if d is None or "msg" not in d:
            rep.ob("result-shape", where, False, "return value",
                   "the result does not carry the payload under 'msg': %s"
                   % show(v, 4)[:200])
            continue
        rep.ob("payload-is-payload", where, payload_of(d["msg"], _tok),
               "returned payload",
               "the value handed out is not derived from the verified "
               "payload part only: %s" % show(d["msg"], 6)[:300])
        if "key" in d:
            key_ok(rep, where, r, st.facts, d["key"], "returned key")
    if not n:
        raise AnalysisBroken("%s has no normal return" % where)
    # what the object exposes
    for e in r.events:
        if e.kind != "setattr":
            continue
        b, name, v = e.data[0], e.data[1], e.data[2]
        if b is not r.ref:
            continue
        pos = W.project.where(e.node) if e.node is not None else where
        payloadish = _tok.uses(v, 1) and not any(
            u.op in ("objv", "instv") for u in subterms(v))
        if name == "msg" or payloadish:
            if is_const(v) and cval(v) in (None, b"", ""):
                continue
            ok = released_ok(e.facts, K, _tok)
            rep.ob("store-after-verify", pos, ok, "self.%s" % name,
                   "the payload is stored on the verifier object before the "
                   "signature was accepted")
            if name == "msg":
                rep.ob("payload-is-payload", pos, payload_of(v, _tok),
                       "self.msg", "stored value %s" % show(v, 6)[:300])
        elif name == "key":
            if is_const(v):
                continue
            key_ok(rep, pos, r, e.facts, v, "self.key")
    rep.floor("release-after-verify", 1)


def key_ok(rep, where, r, facts, k, what):
    def goal(fs):
        for c in verified(fs, r.K, _tok):
            if key_of(c[3]) is k or c[3] is k:
                return True
        return False
    ok = all(entails(facts, lambda fs, x=x: any(
        key_of(c[3]) is x or c[3] is x for c in verified(fs, r.K, _tok)),
        rel_kernel(r.K)) for x in alts_of(k))
    rep.ob("key-is-verifying-key", where, ok, what,
           "the key reported as verifying is not one whose signature check "
           "succeeded: %s" % show(k, 4)[:200])


# -- runs specialised to one algorithm ---------------------------------------
def header_terms(r, tok, name):
    """the terms the code uses for header parameter `name`"""
    from ..query import flat_atoms
    out = set()
    seen = set()
    for e in r.events:
        for f in e.facts:
            for a in flat_atoms(f):
                if a in seen:
                    continue
                seen.add(a)
                for u in subterms(a):
                    if u.op in ("item", "call") and tok.header(u, name):
                        out.add(u)
    return out


def alg_runs(W, entry, text, opt, algs=None, assume=(), extra=()):
    from ..values import mk_cmp
    K = kernels(W, "verify")
    W.key_attrs()
    g = compact_run(W, entry, text, opt, extra)
    ts = header_terms(g, _tok, "alg")
    if not ts:
        raise AnalysisBroken("%s never looks at the alg header parameter"
                             % g.entry)
    for alg in sorted(algs or (cval(k) for k in W.signer_classes())):
        I = W.interp(KEYCLASSES | K | set(extra), optimize=opt)
        asm = [(isinst(param("jws"), "str"), text)]
        asm += [(mk_cmp("eq", t, C(alg)), True) for t in sorted(ts)]
        asm += list(assume)
        r = run(I, JWS, entry, VPARAMS, "%s token%s, alg %s" % (
            "text" if text else "byte", ", -O" if opt else "", alg),
            assume=asm)
        r.K = K
        r.alg = alg
        r.algterms = ts
        yield r


def kernel_events(r, K=None):
    for e in r.events:
        if e.kind == "call":
            c = kernel_call(e.data[3], K or r.K)
            if c is not None:
                yield e, c


def each_variant(W, rep, entries, fn, algs=None, assume=(), extra=()):
    """fn(rep, run) on every entry x token type x -O x algorithm"""
    if isinstance(entries, str):
        entries = (entries,)
    algs = sorted(algs or (cval(k) for k in W.signer_classes()))
    W.key_attrs()
    jobs = []
    half = (len(algs) + 1) // 2
    for entry in entries:
        for text, opt in compact_variants(rep.tier):
            for part in (algs[:half], algs[half:]):
                def job(rp, entry=entry, text=text, opt=opt, part=part):
                    for r in alg_runs(W, entry, text, opt, part, assume,
                                      extra):
                        rp.stat(r.I)
                        fn(rp, r)
                if part:
                    jobs.append(job)
    parallel(rep, jobs)


def pos(W, e):
    return W.project.where(e.node)


def ev_where(W, r, e):
    return "%s [%s]" % (W.project.where(e.node), r.variant)


def eq_fact(fs, x, y):
    """x == y among the facts, in either order"""
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] in ("eq", "is"):
            if (a.args[1] is x and a.args[2] is y) or \
                    (a.args[1] is y and a.args[2] is x):
                return True
    return False


def falsy(fs, x):
    for a, p in fs:
        if a.op == "truthy" and not p and a.args[0] is x:
            return True
        if a.op == "cmp" and p and a.args[0] in ("is", "eq"):
            for u, v in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if v is x and is_const(u) and not cval(u):
                    return True
    return False


def eq_any(fs, pred1, pred2):
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] in ("eq", "is"):
            x, y = a.args[1], a.args[2]
            if (pred1(x) and pred2(y)) or (pred1(y) and pred2(x)):
                return True
    return False


def falsy_any(fs, pred):
    for a, p in fs:
        if a.op == "truthy" and not p and pred(a.args[0]):
            return True
        if a.op == "cmp" and p and a.args[0] in ("is", "eq"):
            for u, v in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if pred(v) and is_const(u) and not cval(u):
                    return True
    return False


def not_in(fs, name, cont):
    for a, p in fs:
        if a.op == "cmp" and a.args[0] == "in" and not p and \
                const_in(a.args[1], (name,)) and cont(a.args[2]):
            return True
    return False


def own_dict(t):
    return t is param("self._dict")


def own(name):
    """the verifier object's own (caller stated) parameter"""
    def pred(t):
        if t.op == "item" and const_in(t.args[1], (name,)):
            return own_dict(t.args[0])
        r, n = method_of(t)
        return n == "get" and own_dict(r) and bool(t.args[1]) and \
            const_in(t.args[1][0], (name,))
    return pred


# -- C02 --------------------------------------------------------------------
def c02(W, rep):
    """unsigned tokens only on the caller's explicit request"""
    def check(rep, r):
        for st, v in r.values():
            # every exit must be justified; on 'none' nothing can verify
            def goal(fs):
                return true_of(fs, lambda t: t is param("allow_none"))

            def rel(a):
                return a.op == "truthy" and a.args[0] is param("allow_none")
            if r.alg.lower() == "none":
                rep.ob("none-needs-allow", where_end(r),
                       entails(st.facts, goal, rel), "normal return",
                       "a token with alg '%s' is accepted although the "
                       "caller did not pass allow_none" % r.alg)
            else:
                ok = entails(st.facts, lambda fs: any(
                    True for _ in verified(fs, r.K, _tok)),
                    rel_kernel(r.K))
                rep.ob("signed-alg-is-verified", where_end(r), ok,
                       "normal return",
                       "a token with alg '%s' is accepted without its "
                       "signature having been accepted" % r.alg)
    each_variant(W, rep, ("verify_compact", "verify_compact_verbose"), check,
                 algs=sorted(set(["none", "NONE", "nOnE"]) |
                             set(cval(k) for k in W.signer_classes())))
    rep.floor("signed-alg-is-verified", 1)
    # with allow_none false nothing at all is returned for 'none'

    def refuse(rep, r):
        rep.ob("none-refused", where_end(r), not r.res, "normal return",
               "an unsigned token is accepted with allow_none false")
    each_variant(W, rep, ("verify_compact", "verify_compact_verbose"),
                 refuse, ["none", "None"],
                 [(T("truthy", param("allow_none")), False)])
    defaults(W, rep)
    passthrough(W, rep, "allow_none")


def defaults(W, rep):
    import ast
    I = W.base()
    for q in VERIFY + (JWS + ".verify_json",):
        if q not in I.funcs:
            raise AnalysisBroken("anchor %s has vanished" % q)
        a = I.funcs[q].node.args
        names = [x.arg for x in a.args]
        dm = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dm.update((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults))
        if "allow_none" not in names + [x.arg for x in a.kwonlyargs]:
            raise AnalysisBroken("%s has no allow_none parameter" % q)
        d = dm.get("allow_none")
        ok = d is None or (isinstance(d, ast.Constant) and not d.value)
        rep.ob("default-refuses-none", q, ok, "default of allow_none",
               "unsigned tokens are accepted by default")


def json_run(W, opt, opaque=True, assume=()):
    K = kernels(W, "verify")
    W.key_attrs()
    I = W.interp(KEYCLASSES | K | (set(VERIFY) if opaque else set()),
                 optimize=opt)
    I.done_ops = set(VERIFY) if opaque else set()
    r = run(I, JWS, "verify_json", VPARAMS, "JSON%s" % (
        ", -O" if opt else ""), assume=assume)
    r.K = K
    return r


def vcalls(r):
    """calls of the compact verification from the JSON one"""
    for e in r.events:
        if e.kind == "call" and callee(e.data[3]) in VERIFY:
            yield e, vargs(r, e.data[3])


def vargs(r, t):
    fd = r.I.funcs[callee(t)].node
    names = [a.arg for a in fd.args.args]
    kw = call_args(t, names)
    return kw


def passthrough(W, rep, name, assume=()):
    """verify_json hands the caller's argument on unchanged"""
    for opt in (False, True):
        r = json_run(W, opt, assume=assume)
        rep.stat(r.I)
        n = 0
        for e, kw in vcalls(r):
            n += 1
            v = kw.get(name)
            ok = v is param(name)
            if v is None and name == "allow_none":
                ok = True           # stays at the refusing default
            rep.ob("json-passes-" + name, pos(W, e), ok,
                   "argument %s of the per-signature verification" % name,
                   "is %s" % (show(v, 4)[:120] if v is not None
                              else "not passed on"))
        if not n:
            json_inline(W, rep, opt, name)


def json_inline(W, rep, opt, name):
    raise AnalysisBroken("verify_json does not use the compact verification")


# -- C03 --------------------------------------------------------------------
def c03(W, rep):
    def check(rep, r):
        isalg = lambda t: t in r.algterms or _tok.header(t, "alg") or \
            const_in(t, (r.alg,))
        for e, c in kernel_events(r):
            def g1(fs):
                return falsy(fs, param("sigalg")) or eq_any(
                    fs, lambda t: t is param("sigalg"), isalg)

            def rel1(a):
                return param("sigalg") in subterms(a)
            rep.ob("expected-alg-argument", pos(W, e) , entails(
                e.facts, g1, rel1), "signature check",
                "[%s] a signature is checked although the caller's sigalg "
                "differs from the token's alg" % r.variant)

            def g2(fs):
                return not_in(fs, "alg", own_dict) or falsy_any(
                    fs, own("alg")) or eq_any(fs, own("alg"), isalg)

            def rel2(a):
                return any(own("alg")(u) or own_dict(u) for u in subterms(a))
            rep.ob("expected-alg-constructor", pos(W, e), entails(
                e.facts, g2, rel2), "signature check",
                "[%s] a signature is checked although the algorithm given "
                "to the constructor differs from the token's" % r.variant)
    algs = sorted(cval(k) for k, v in W.signer_classes().items() if v)
    each_variant(W, rep, ("verify_compact", "verify_compact_verbose"), check,
                 algs)
    rep.floor("expected-alg-argument", len(algs))
    c03_json(W, rep)


def c03_json(W, rep):
    """every entry is verified against the caller's expectation: the sigalg
    argument, or else the algorithm the object was made for"""
    from ..values import mk_cmp
    passthrough(W, rep, "sigalg", [(T("truthy", param("sigalg")), True)])
    mine = own_alg_term()
    asm = [(T("truthy", param("sigalg")), False),
           (mk_cmp("in", C("alg"), param("self._dict")), True),
           (mk_cmp("eq", mine, C("HS256")), True)]
    for opt in (False, True):
        r = json_run(W, opt, assume=asm)
        rep.stat(r.I)
        for e, kw in vcalls(r):
            v = kw.get("sigalg")
            ok = v is not None and all(
                own("alg")(x) or const_in(x, ("HS256",)) for x in alts_of(v))
            if not ok:
                ok = receiver_pinned(r, e, kw)
            rep.ob("json-constructor-alg", pos(W, e), ok,
                   "per-signature verification",
                   "the algorithm the verifier object was made for is not "
                   "enforced on a JSON-serialized JWS: sigalg is %s" % (
                       show(v, 3)[:100] if v is not None else "not passed"))


def receiver_pinned(r, e, kw):
    """the object the compact verification runs on still has the alg"""
    o = kw.get("self")
    if o is None or o.op != "objv":
        return False
    d = dict(o.args[2]).get("_dict")
    if d is None:
        return False
    if own_dict(d):
        return True
    v = header_get(d, "alg")
    return v is not None and all(
        x is not None and (own("alg")(x) or const_in(x, ("HS256",)))
        for x in v)


# -- C01: the JSON serialization -------------------------------------------
def json_obj(t):
    """the parsed JWS JSON object"""
    s = strip_json(t)
    return s is not None and strip_text(s) is param("jws")


def json_member(t, name):
    if t.op == "item" and const_in(t.args[1], (name,)):
        return json_obj(t.args[0])
    r, n = method_of(t)
    return n == "get" and bool(t.args[1]) and \
        const_in(t.args[1][0], (name,)) and json_obj(r)


def unlist(t):
    while t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] in ("list", "tuple", "iter", "sorted") and \
            len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def is_signatures(t):
    return json_member(unlist(t), "signatures")


def is_entry(t):
    """an element of the signatures list"""
    if t.op == "elem":
        return is_signatures(t.args[1])
    if t.op == "item" and is_signatures(t.args[0]):
        return not is_const(t.args[1]) or intc(t.args[1]) is not None
    return False


def entry_member(t, name):
    """the signature entry whose member `name` is the text t"""
    t = strip_text(t)
    if t.op == "item" and const_in(t.args[1], (name,)):
        e = t.args[0]
    else:
        r, n = method_of(t)
        if n != "get" or not t.args[1] or \
                not const_in(t.args[1][0], (name,)):
            if t.op == "call" and t.args[0].op == "builtin" and \
                    t.args[0].args[0] in ("kwget", "dget") and \
                    len(t.args[1]) > 1 and const_in(t.args[1][1], (name,)):
                e = t.args[1][0]
            else:
                return None
        else:
            e = r
    if is_entry(e):
        return e
    if json_obj(e):
        return "flat"
    if e.op == "dictv":
        return "flat" if any(json_obj(u) for u in subterms(e)) else None
    return None


def json_token(t):
    """the entry whose protected.payload.signature is the text t"""
    t = strip_text(t)
    if t.op == "alt":
        es = [json_token(x) for x in t.args[0]]
        return es[0] if all(e is es[0] for e in es) else None
    r, n = method_of(t)
    if n == "join" and const_in(r, (b".", ".")) and t.args[1]:
        s = t.args[1][0]
        xs = s.args if s.op == "tuple" else (
            s.args[0] if s.op == "listv" and not s.args[1] else None)
        if xs is None or len(xs) != 3:
            return None
        p, q, g = xs
    elif t.op == "cat":
        xs = list(t.args)
        if len(xs) == 4 and const_in(xs[0], (b".", ".")):
            xs.insert(0, C(""))
        if len(xs) != 5 or not const_in(xs[1], (b".", ".")) or \
                not const_in(xs[3], (b".", ".")):
            return None
        p, q, g = xs[0], xs[2], xs[4]
    else:
        return None
    if not json_member(strip_text(q), "payload"):
        return None
    e = entry_member(g, "signature")
    if e is None:
        return None
    if is_const(p) and not cval(p):
        return e
    return e if entry_member(p, "protected") is e else None


def leaves(I, v, seen=None):
    """values a (loop carried) variable can hold"""
    seen = set() if seen is None else seen
    if v in seen or v.op == "muvar":
        return
    seen.add(v)
    if v.op == "alt":
        for x in v.args[0]:
            for y in leaves(I, x, seen):
                yield y
    elif v.op == "mu":
        for x in (v.args[2],) + tuple(v.args[3]):
            for y in leaves(I, x, seen):
                yield y
    else:
        yield v


def entry_done(r, fs, want):
    """is the entry `want` (or any, for None) verified according to fs"""
    for a, p in fs:
        if a.op == "done" and p and callee(a.args[0]) in VERIFY:
            kw = vargs(r, a.args[0])
            e = json_token(kw.get("jws", NONE))
            if e is not None and (want is None or e is want or want == e):
                return True
        t = strip_cmp_true(a, p)
        if t is not None and kernel_call(t, r.K):
            c = kernel_call(t, r.K)
            for u in subterms(c[1]):
                if json_token(u) is not None:
                    tk = Token(lambda x, u=u: x is u, 3)
                    if sound_call(c, tk):
                        return True
    return False


def rel_done(r):
    def rel(a):
        if a.op == "done":
            return callee(a.args[0]) in VERIFY
        return rel_kernel(r.K)(a)
    return rel


def every_entry(r, fs):
    for a, p in fs:
        if a.op == "forall" and p and is_signatures(a.args[1]):
            if all(entails(d, lambda x: entry_done(r, x, None), rel_done(r))
                   for d in a.args[2]):
                return True
    return False


def no_list(fs):
    for a, p in fs:
        if a.op == "cmp" and a.args[0] == "in" and not p and \
                const_in(a.args[1], ("signatures",)) and json_obj(a.args[2]):
            return True
        if a.op == "truthy" and not p and \
                json_member(a.args[0], "signatures"):
            return True
        if a.op == "cmp" and p and a.args[0] == "is" and NONE in a.args[1:] \
                and any(json_member(x, "signatures") for x in a.args[1:]):
            return True
    return False


def some_entry(fs):
    """the facts rule out an empty signatures list"""
    for a, p in fs:
        if a.op == "truthy" and p and is_signatures(a.args[0]):
            return True
        if a.op == "cmp":
            for x in a.args[1:]:
                if x.op == "call" and x.args[0].op == "builtin" and \
                        x.args[0].args[0] == "len" and \
                        is_signatures(x.args[1][0]):
                    return True
    return False


def value_ok(r, v):
    """a leaf of the returned value: the payload of a verified entry"""
    if callee(v) in VERIFY:
        return json_token(vargs(r, v).get("jws", NONE)) is not None
    if v.op == "item" and callee(v.args[0]) in VERIFY and \
            const_in(v.args[1], ("msg",)):
        return value_ok(r, v.args[0])
    for u in subterms(v):
        if json_token(u) is not None:
            tk = Token(lambda x, u=u: x is u, 3)
            if tk.only_from(v, 1):
                return True
    return False


def c01_json(W, rep):
    for opt in (False, True):
        r = json_run(W, opt)
        if not any(True for _ in vcalls(r)):
            r = json_run(W, opt, opaque=False)
        rep.stat(r.I)
        where = where_end(r)
        n = 0
        for st, v in r.values():
            n += 1

            def goal(fs):
                if no_list(fs):
                    return entry_done(r, fs, None)
                return every_entry(r, fs)

            def rel(a):
                return rel_done(r)(a) or a.op == "forall" or (
                    a.op in ("cmp", "truthy") and
                    any(json_member(u, "signatures") or const_in(
                        u, ("signatures",)) for u in subterms(a)))
            rep.ob("every-entry-verified", where, entails(
                st.facts, goal, rel), "normal return",
                "a JSON-serialized JWS is accepted although not every "
                "signature entry was verified over its own protected "
                "header and the shared payload")
            for x in leaves(r.I, v):
                if x is NONE:
                    rep.ob("something-verified", where, entails(
                        st.facts, lambda fs: some_entry(fs) or no_list(fs),
                        rel), "returned None",
                        "an object with no signature at all is accepted")
                    continue
                rep.ob("json-payload", where, value_ok(r, x),
                       "returned value", "the value returned is not the "
                       "payload of a verified entry: %s" % show(x, 5)[:200])
        if not n:
            raise AnalysisBroken("verify_json has no normal return")


# -- C04: which keys may be used ---------------------------------------------
KTY = {"RS": "RSA", "PS": "RSA", "HS": "oct", "ES": "EC"}


def kty_ok(fs, k, want):
    """kty of key k is known to be `want`"""
    good = set(x for w in (want, want.lower(), want.upper())
               for x in (w, w.encode()))
    kt = T("attr", k, "kty")

    def is_kty(t):
        if t is kt:
            return True
        r, n = method_of(t)
        return n in ("lower", "upper", "decode", "encode", "casefold") and \
            is_kty(r)

    def consts(t):
        if t.op in ("tuple",):
            return t.args
        if t.op == "listv" and not t.args[1]:
            return t.args[0]
        if t.op == "const" and isinstance(cval(t), (tuple, frozenset)):
            return [C(x) for x in cval(t)]
        if t.op == "setv":
            return t.args[0]
        return None
    for a, p in fs:
        if a.op == "isinst" and p and a.args[0] is k and \
                a.args[1].op == "class":
            if a.args[1].args[0] == {
                    "RSA": "jwkest.jwk.RSAKey", "EC": "jwkest.jwk.ECKey",
                    "oct": "jwkest.jwk.SYMKey"}[want]:
                return True
        if a.op != "cmp" or not p:
            continue
        op, x, y = a.args
        if op == "in" and is_kty(x):
            cs = consts(y)
            if cs and all(is_const(c) and cval(c) in good for c in cs):
                return True
        if op == "eq":
            for u, v in ((x, y), (y, x)):
                if is_kty(u) and is_const(v) and cval(v) in good:
                    return True
    return False


def kid_ok(fs, k, tok, header=True):
    kk = T("attr", k, "kid")
    is_k = lambda t: t is kk
    hk = (lambda t: tok.header(t, "kid")) if tok else (lambda t: False)
    ok = own("kid")
    hd = (lambda t: tok.headers(t)) if tok else (lambda t: False)
    mine = eq_any(fs, ok, is_k)
    if mine:
        return True
    # no kid stated by the caller: the header's counts
    if not_in(fs, "kid", own_dict) or falsy_any(fs, ok):
        if not tok or falsy_any(fs, ok):
            return True
        return not_in(fs, "kid", hd) or falsy_any(fs, hk) or \
            eq_any(fs, hk, is_k)
    return False


def rel_key(k, name, extra=()):
    kk = T("attr", k, name)

    def rel(a):
        ss = subterms(a)
        return kk in ss or any(
            own(name)(u) or own_dict(u) or const_in(u, (name,)) for u in ss)
    return rel


def attr_free_or(fs, k, name, isval):
    """the key does not restrict `name`, or to the right value"""
    kk = T("attr", k, name)
    return falsy(fs, kk) or eq_any(fs, lambda t: t is kk, isval) or \
        in_consts(fs, kk, isval)


def in_consts(fs, t, isval):
    for a, p in fs:
        if a.op == "cmp" and a.args[0] == "in" and p and a.args[1] is t:
            y = a.args[2]
            cs = y.args if y.op == "tuple" else (
                y.args[0] if y.op == "listv" and not y.args[1] else None)
            if cs is not None and all(
                    isval(c) or (is_const(c) and not cval(c)) for c in cs):
                return True
    return False


def c04_verify(W, rep):
    def check(rep, r):
        isalg = lambda t: t in r.algterms or _tok.header(t, "alg") or \
            const_in(t, (r.alg,))
        want = KTY.get(r.alg[:2])
        for e, c in kernel_events(r):
            if want is None:
                rep.ob("known-family", pos(W, e), False, "alg " + r.alg,
                       "no key type is defined for this algorithm")
                continue
            k = key_of(c[3])
            for x in alts_of(k):
                key_obs(W, rep, r, e, x, want, _tok, isalg, "verifying")
    algs = sorted(cval(k) for k, v in W.signer_classes().items() if v)
    each_variant(W, rep, "verify_compact_verbose", check, algs)



def own_kid_only(o):
    """the JWS object o asks for the key id this object asks for"""
    if o is None:
        return False
    if o is param("self"):
        return True
    d = dict(o.args[2]).get("_dict") if o.op == "objv" else None
    if d is None:
        return False
    if own_dict(d):
        return True
    v = header_get(d, "kid")
    return bool(v) and all(x is not None and own("kid")(x) for x in v)


def c04_json(W, rep):
    """the key id a JWS object was made for counts for the JSON
    serialization, too"""
    from ..values import mk_cmp
    asked = [(mk_cmp("in", C("kid"), param("self._dict")), True),
             (T("truthy", T("item", param("self._dict"), C("kid"))), True)]
    W.key_attrs()
    for opt in (False, True):
        I = W.interp(KEYCLASSES | set([SIGNC]), optimize=opt)
        I.done_ops = set([SIGNC])
        r = run(I, JWS, "sign_json", ["keys", "headers", "flatten"],
                "JSON%s" % (", -O" if opt else ""), assume=asked + [
                    (mk_cmp("is", param("headers"), NONE), True)])
        rep.stat(I)
        for e in r.events:
            if e.kind != "call" or callee(e.data[3]) != SIGNC:
                continue
            c = e.data[3]
            rep.ob("json-key-id", JWS + ".sign_json", own_kid_only(
                c.args[1][0] if c.args[1] else None), "signing",
                "the key id the object was made for is not asked of the "
                "key that signs an entry")
        r = json_run(W, opt, assume=asked)
        rep.stat(r.I)
        for e, kw in vcalls(r):
            rep.ob("json-key-id", JWS + ".verify_json", own_kid_only(
                kw.get("self")), "verifying",
                "the key id the object was made for is not asked of the "
                "key that verifies an entry")
    rep.floor("json-key-id", 4)


def key_obs(W, rep, r, e, k, want, tok, isalg, doing, use=None,
            facts=None):
    fs = e.facts if facts is None else facts
    where = pos(W, e)
    rep.ob("key-type", where, entails(
        fs, lambda f: kty_ok(f, k, want), rel_key(k, "kty")),
        "%s with %s%s" % (doing, r.alg, "" if not r.I.optimize else " (-O)"),
        "[%s] the key's type is not known to be %s: %s" % (
            r.variant, want, show(k, 4)[:100]))
    rep.ob("key-id", where, entails(
        fs, lambda f: kid_ok(f, k, tok), rel_key(k, "kid")),
        "%s%s" % (doing, "" if not r.I.optimize else " (-O)"),
        "[%s] a key is used whose kid differs from the one asked for: %s"
        % (r.variant, show(k, 4)[:100]))
    rep.ob("key-alg", where, entails(
        fs, lambda f: attr_free_or(f, k, "alg", isalg), rel_key(k, "alg")),
        "%s%s" % (doing, "" if not r.I.optimize else " (-O)"),
        "[%s] a key reserved for another algorithm is used: %s"
        % (r.variant, show(k, 4)[:100]))
    if use is not None:
        rep.ob("key-use", where, entails(
            fs, lambda f: attr_free_or(
                f, k, "use", lambda t: const_in(t, use)), rel_key(k, "use")),
            "%s%s" % (doing, "" if not r.I.optimize else " (-O)"),
            "[%s] a key reserved for another use is used: %s"
            % (r.variant, show(k, 4)[:100]))


# -- signing -----------------------------------------------------------------
def own_alg_term():
    return T("item", param("self._dict"), C("alg"))


def sign_runs(W, opts=(False, True), algs=None):
    """sign_compact with the algorithm given to the object, or taken from the
    single key"""
    from ..values import mk_cmp
    K = kernels(W, "sign")
    W.key_attrs()
    for opt in opts:
        for alg in sorted(algs or (cval(k) for k in W.signer_classes())):
            for src in ("object", "key"):
                I = W.interp(KEYCLASSES | K, optimize=opt)
                if src == "object":
                    asm = [(mk_cmp("eq", own_alg_term(), C(alg)), True),
                           (mk_cmp("in", C("alg"), param("self._dict")),
                            True)]
                else:
                    asm = [(mk_cmp("in", C("alg"), param("self._dict")),
                            False)]
                r = run(I, JWS, "sign_compact", ["keys", "protected"],
                        "alg %s from the %s%s" % (
                            alg, src, ", -O" if opt else ""), assume=asm)
                if src == "key":
                    ts = set()
                    for e in r.events:
                        for f in e.facts:
                            for a in flat_atoms(f):
                                for u in subterms(a):
                                    if u.op == "attr" and \
                                            u.args[1] == "alg":
                                        ts.add(u)
                    if not ts:
                        continue
                    asm += [(mk_cmp("eq", t, C(alg)), True) for t in
                            sorted(ts)]
                    r = run(I, JWS, "sign_compact", ["keys", "protected"],
                            r.variant, assume=asm)
                    r.algterms = ts
                else:
                    r.algterms = set([own_alg_term()])
                r.K = K
                r.alg = alg
                r.src = src
                yield r


def c04_sign(W, rep):
    algs = sorted(cval(k) for k, v in W.signer_classes().items() if v)

    def check(rep, r):
        isalg = lambda t: t in r.algterms or const_in(t, (r.alg,))
        for e, c in sign_events(r):
            for x in alts_of(key_of(c[-1])):
                key_obs(W, rep, r, e, x, KTY.get(r.alg[:2]), None, isalg,
                        "signing", use=("sig",))
    each_sign(W, rep, check, algs)


def each_sign(W, rep, fn, algs=None):
    jobs = []
    W.key_attrs()
    for opt in (False, True):
        for alg in sorted(algs or (cval(k) for k in W.signer_classes())):
            def job(rp, opt=opt, alg=alg):
                for r in sign_runs(W, (opt,), [alg]):
                    rp.stat(r.I)
                    fn(rp, r)
            jobs.append(job)
    parallel(rep, jobs)


def sign_call(t, K):
    if t.op == "fresh":
        t = t.args[0]
    if callee(t) not in K:
        return None
    a = list(t.args[1])
    kw = dict(t.args[2])
    for n in ("self", "msg", "key")[len(a):]:
        if n not in kw:
            return None
        a.append(kw[n])
    return tuple(a) if len(a) == 3 else None


def sign_events(r):
    for e in r.events:
        if e.kind == "call":
            c = sign_call(e.data[3], r.K)
            if c is not None:
                yield e, c


ENCODERS = ("jwkest.jwt.b64encode_item", "jwkest.b64e",
            "jwkest.b64e_enc_dec")


def encoded(t):
    """the value that the text t is the base64url encoding of"""
    t = strip_text(t)
    if callee(t) in ENCODERS and t.args[1]:
        return t.args[1][0]
    return None


def unjson(t):
    t = strip_text(t)
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].args[0] == "json.dumps" and t.args[1]:
        t = t.args[1][0]
    if callee(t) == "jwkest.jwt.b2s_conv" and t.args[1]:
        t = t.args[1][0]
    return t


def segments(t):
    """text -> its dot separated segments, or None"""
    t = strip_text(t)
    if t.op == "cat":
        out = [[]]
        for a in t.args:
            if const_in(a, (".", b".")):
                out.append([])
            elif is_const(a) and isinstance(cval(a), (str, bytes)) and \
                    cval(a) in (".", b"."):
                out.append([])
            else:
                out[-1].append(a)
        if all(len(x) <= 1 for x in out):
            res = []
            for x in out:
                if not x:
                    res.append(C(""))
                else:
                    s = strip_text(x[0])
                    res.append(s)
            return res
        return None
    r, n = method_of(t)
    if n == "join" and const_in(r, (".", b".")) and t.args[1]:
        s = t.args[1][0]
        xs = s.args if s.op == "tuple" else (
            s.args[0] if s.op == "listv" and not s.args[1] else None)
        if xs is not None:
            out = []
            for x in xs:
                sub = segments(x)
                out.extend(sub if sub else [strip_text(x)])
            return out
    if t.op == "bin" and t.args[0] == "%" and is_const(t.args[1]) and \
            t.args[2].op == "tuple":
        f = cval(t.args[1])
        f = f.decode() if isinstance(f, bytes) else f
        if isinstance(f, str) and set(f.split(".")) == {"%s"} and \
                len(f.split(".")) == len(t.args[2].args):
            return [y for x in t.args[2].args
                    for y in (segments(x) or [strip_text(x)])]
    return [t]


def empty_seg(t):
    if is_const(t) and not cval(t):
        return True
    e = encoded(t)
    return e is not None and is_const(e) and not cval(e)


def header_get(h, name):
    """value(s) of a member of the header dict term; None when absent"""
    h = unjson(h)
    if h.op == "call" and h.args[0].op == "builtin" and \
            h.args[0].args[0] == "dict" and h.args[1]:
        return header_get(h.args[1][0], name)
    if h.op == "alt":
        out = []
        for x in h.args[0]:
            v = header_get(x, name)
            out.extend(v if v is not None else [None])
        return out
    if h.op != "dictv":
        return None
    for k, v in h.args[0]:
        if const_in(k, (name,)):
            if v.op == "absent":
                return None
            return list(alts_of(v))
    out = []
    for s in h.args[1]:
        if const_in(s[0], (name,)):
            out.extend(alts_of(s[1]))
        elif not is_const(s[0]):
            out.append(None)
    return out or None


def c09(W, rep):
    W.table("jwkest.jws", "SIGNER_ALGS")

    def check(rep, r):
        where = where_end(r)
        isalg = lambda t: t is not None and (
            t in r.algterms or const_in(t, (r.alg,)))
        ro = r.I.obj(r.I.init, r.I.init.frames[("mod", "jwkest.jws")][
            "SIGNER_ALGS"])
        want = ro.fields.get(C(r.alg), NONE)
        wantf = r.I.freeze(r.I.init, want)
        n = 0
        for st, v0 in r.values():
            for v in alts_of(v0):
                n += 1
                seg = segments(v)
                if seg is None or len(seg) != 3:
                    rep.ob("three-segments", where, False, "returned token",
                           "not header.payload.signature: %s" %
                           show(v, 4)[:200])
                    continue
                rep.ob("three-segments", where, True, "returned token")
                hd, pl, sg = seg
                H = encoded(hd)
                alg = header_get(H, "alg") if H is not None else None
                if alg is None and H is not None:
                    alg = [None]
                if r.src == "key" and alg is not None and all(
                        x is not None and const_in(x, ("none",))
                        for x in alg) and empty_seg(sg):
                    # nobody stated an algorithm: unsigned and says so
                    rep.ob("none-unsigned", where, True,
                           "signature segment")
                    continue
                rep.ob("header-names-alg", where,
                       alg is not None and all(isalg(x) for x in alg),
                       "protected header",
                       "the emitted header does not name the algorithm in "
                       "use (%s): %s" % (r.alg, show(H, 4)[:200]
                                         if H is not None else "?"))
                M = encoded(pl)
                rep.ob("payload-is-msg", where, M is param("self.msg"),
                       "payload segment", "the payload segment does not "
                       "encode the message: %s" % show(pl, 5)[:200])
                if wantf is NONE:
                    rep.ob("none-unsigned", where, empty_seg(sg),
                           "signature segment",
                           "alg none with a non-empty signature")
                    continue
                S = encoded(sg)
                c = sign_call(S, r.K) if S is not None else None
                if c is None:
                    rep.ob("really-signed", where, False,
                           "signature segment", "alg %s but the signature "
                           "segment is not the result of a signature "
                           "primitive: %s" % (r.alg, show(sg, 4)[:150]))
                    continue
                rep.ob("really-signed", where, True, "signature segment")
                rep.ob("signer-matches-alg", where,
                       r.I.freeze(st, c[0]) is wantf or c[0] is wantf,
                       "signature primitive",
                       "alg %s is signed with %s" % (r.alg,
                                                     show(c[0], 3)[:120]))
                inp = segments(c[1])
                rep.ob("signs-what-it-sends", where,
                       inp is not None and len(inp) == 2 and
                       inp[0] is hd and inp[1] is pl, "signing input",
                       "the signature does not cover the emitted header and "
                       "payload: %s" % show(c[1], 4)[:200])
                kid = header_get(H, "kid") if H is not None else None
                k = key_of(c[2])
                for x in kid or ():
                    if x is None or isself(x, "kid") or from_param(
                            x, "protected"):
                        continue
                    rep.ob("header-names-key", where,
                           x.op == "attr" and x.args[1] == "kid" and
                           x.args[0] in alts_of(k), "kid header",
                           "the emitted kid is not that of the signing key: "
                           "%s" % show(x, 4)[:120])
        if not n and r.src == "object":
            # no way to produce a token with this algorithm at all
            rep.ob("alg-usable", where, False, "alg %s" % r.alg,
                   "no token can be produced")
        elif r.src == "object":
            rep.ob("alg-usable", where, True, "alg %s" % r.alg)
    each_sign(W, rep, check)
    c09_json(W, rep)


def isself(t, name):
    return own(name)(t)


def from_param(t, name):
    return any(u is param(name) for u in subterms(t)) and not any(
        u.op == "attr" and u.args[1] == "kid" for u in subterms(t))


SIGNC = JWS + ".sign_compact"


def json_entries(v):
    """signature entries (dict terms) of the emitted object"""
    top = None
    if v.op == "dictv":
        top = v
    if top is None:
        return None, None
    m = {}
    for k, x in top.args[0]:
        if is_const(k):
            m[cval(k)] = x
    out = []
    if "signatures" in m:
        lst = unlist(m["signatures"])
        for l in alts_of(lst):
            if l.op != "listv":
                return m, None
            out.extend(l.args[0])
            for s in l.args[1]:
                if isinstance(s, T):
                    out.append(s)
                else:
                    out.append(s[0])
    else:
        out.append(top)
    res = []
    for x in out:
        for y in alts_of(x):
            if y.op != "dictv":
                return m, None
            res.append(dict((cval(k), z) for k, z in y.args[0]
                            if is_const(k)))
    return m, res


def piece_of(t):
    """(call, index) if t is piece index of a split compact token"""
    t = strip_text(t)
    if t.op != "item":
        return None, None
    r, n = method_of(t.args[0])
    i = intc(t.args[1])
    if n != "split" or not t.args[0].args[1] or \
            not const_in(t.args[0].args[1][0], (".", b".")) or i is None:
        return None, None
    c = strip_text(r)
    if callee(c) == SIGNC:
        return c, i % 3
    return None, None


def pieces_of(t, n):
    """the compact signings whose piece n is t"""
    out = set()
    for x in alts_of(t) if t is not None else ():
        c, i = piece_of(x)
        if c is None or i != n:
            return None
        out.add(c)
    return out


def c09_json(W, rep):
    W.key_attrs()
    for opt in (False, True):
        I = W.interp(KEYCLASSES | set([SIGNC]), optimize=opt)
        I.done_ops = set([SIGNC])
        r = run(I, JWS, "sign_json", ["keys", "headers", "flatten"],
                "JSON%s" % (", -O" if opt else ""))
        rep.stat(I)
        where = where_end(r)
        n = 0
        for st, v0 in r.values():
            for v in alts_of(v0):
                n += 1
                s = unjson(v)
                m, ents = json_entries(s)
                if m is None or ents is None:
                    rep.ob("json-shape", where, False, "returned value",
                           "not a JWS JSON object: %s" % show(v, 4)[:200])
                    continue
                rep.ob("json-shape", where, True, "returned value")
                p = m.get("payload")
                rep.ob("json-payload-is-msg", where, p is not None and
                       encoded(p) is param("self.msg"), "payload member",
                       "does not encode the message")
                for d in ents:
                    g = d.get("signature")
                    cs = pieces_of(g, 2)
                    rep.ob("json-signature", where, bool(cs),
                           "signature member", "is not the signature of a "
                           "compact signing of this message: %s" % (
                               show(g, 4)[:150] if g is not None else "none"))
                    if not cs:
                        continue
                    q = d.get("protected")
                    if q is not None:
                        # one signing per path, so equal sets are equal terms
                        ok = pieces_of(q, 0) == cs
                    else:
                        def goal(fs):
                            for a, pl in fs:
                                if a.op == "truthy" and not pl:
                                    if pieces_of(a.args[0], 0) == cs:
                                        return True
                            return False
                        ok = entails(st.facts, goal, lambda a: a.op ==
                                     "truthy") or in_loop_piece(st, cs)
                    rep.ob("json-protected", where, ok, "protected member",
                           "the emitted protected header is not the one "
                           "that was signed")
                    for c in cs:
                        o = c.args[1][0] if c.args[1] else None
                        msg = None
                        if o is not None and o.op == "objv":
                            msg = dict(o.args[2]).get("msg")
                        rep.ob("json-signs-msg", where,
                               msg is param("self.msg"), "signed message",
                               "the entry signs %s" % (
                                   show(msg, 4)[:120] if msg is not None
                                   else "something unknown"))
        if not n:
            raise AnalysisBroken("sign_json has no normal return")
    rep.floor("json-signature", 2)


def in_loop_piece(st, c):
    """the member is left out only where the code has tested that the
    encoded header is empty"""
    seen = set()

    def go(a):
        if a in seen:
            return False
        seen.add(a)
        if a.op == "truthy":
            return bool(pieces_of(a.args[0], 0))
        if a.op == "dnf":
            return any(go(b) for d in a.args[0] for b, q in d)
        if a.op == "forall":
            return any(go(b) for d in a.args[2] for b, q in d)
        return False
    return any(go(a) for a, p in st.facts)


# -- C05 --------------------------------------------------------------------
BOGUS = ("HS255", "hs256", "RS256 ", "")


def c05(W, rep):
    """the primitive is the one registered for the protected header's alg"""
    I, reg = W.table("jwkest.jws", "SIGNER_ALGS")
    o = I.obj(I.init, reg)
    algs = sorted(cval(k) for k, v in W.signer_classes().items() if v)

    def check(rep, r):
        if r.alg not in algs:
            rep.ob("unknown-alg-refused", where_end(r), not r.res,
                   "normal return", "a token whose alg %r is not supported "
                   "is accepted" % r.alg)
            for e, c in kernel_events(r):
                rep.ob("unknown-alg-refused", ev_where(W, r, e), False,
                       "signature check", "alg %r is not registered but %s "
                       "is used" % (r.alg, show(c[0], 3)[:100]))
            return
        ro = r.I.obj(r.I.init, r.I.init.frames[("mod", "jwkest.jws")][
            "SIGNER_ALGS"])
        want = ro.fields.get(C(r.alg), NONE)
        wantf = r.I.freeze(r.I.init, want)
        for e, c in kernel_events(r):
            rep.ob("verifier-matches-header", pos(W, e),
                   c[0] is wantf or c[0] is want,
                   "alg " + r.alg,
                   "[%s] a token with alg %s is checked with %s" % (
                       r.variant, r.alg, show(c[0], 3)[:120]))
            rep.ob("checks-received-bytes", pos(W, e), sound_call(c, _tok),
                   "alg " + r.alg, "[%s] the check is not over the received "
                   "header.payload and signature: msg %s sig %s" % (
                       r.variant, show(c[1], 4)[:150], show(c[2], 4)[:100]))
    each_variant(W, rep, ("verify_compact", "verify_compact_verbose"), check,
                 sorted(set(algs) | set(BOGUS)),
                 assume=[(T("truthy", param("allow_none")), False)])
    rep.floor("verifier-matches-header", len(algs))


# -- C06 --------------------------------------------------------------------
SOURCES = ("jwkest.jwk.KEYS.load_from_url", "jwkest.jwk.load_x509_cert",
           "jwkest.jwk.load_jwks_from_url", "jwkest.jwk.load_x509_cert_chain",
           "jwkest.jwk.KEYS.load_dict", "jwkest.jwk.KEYS.load_jwks")


def origins(t, seen=None):
    """the collections / values a key term was taken from"""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == "alt":
        for x in t.args[0]:
            for y in origins(x, seen):
                yield y
    elif t.op == "mu":
        for x in (t.args[2],) + tuple(t.args[3]):
            for y in origins(x, seen):
                yield y
    elif t.op == "muvar":
        return
    elif t.op == "elem":
        for y in origins(t.args[1], seen):
            yield y
    elif t.op == "item":
        for y in origins(t.args[0], seen):
            yield y
    elif t.op == "listv":
        for x in t.args[0]:
            for y in origins(x, seen):
                yield y
        for s in t.args[1]:
            for y in origins(s if isinstance(s, T) else s[0], seen):
                yield y
    elif t.op == "tuple":
        for x in t.args:
            for y in origins(x, seen):
                yield y
    elif t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] in ("list", "tuple", "iter", "sorted", "set",
                                  "reversed", "enumerate", "next") and \
            t.args[1]:
        for y in origins(t.args[1][0], seen):
            yield y
    else:
        r, n = method_of(t)
        if n in ("values", "copy", "items") and r is not None:
            for y in origins(r, seen):
                yield y
        else:
            yield t


def token_derived(t):
    return any(u is param("jws") for u in subterms(t))


def c06(W, rep):
    given = [(T("truthy", param("keys")), True)]

    def check(rep, r):
        for e, c in kernel_events(r):
            for k in alts_of(key_of(c[3])):
                for o in origins(k):
                    rep.ob("key-from-argument", pos(W, e),
                           o is param("keys"), "key of the signature check",
                           "[%s] the caller gave keys but the key comes from "
                           "%s" % (r.variant, show(o, 4)[:150]))
        fetches(W, rep, r)
    algs = sorted(cval(k) for k, v in W.signer_classes().items() if v)
    each_variant(W, rep, ("verify_compact", "verify_compact_verbose"), check,
                 algs, assume=given)
    rep.floor("key-from-argument", len(algs))

    # no key argument: only what the constructor was given
    def own_only(rep, r):
        for e, c in kernel_events(r):
            for k in alts_of(key_of(c[3])):
                rep.ob("key-not-from-token", pos(W, e), not token_derived(k),
                       "key of the signature check", "[%s] the key is taken "
                       "from the token itself: %s" % (
                           r.variant, show(k, 4)[:150]))
        for e in r.events:
            if e.kind == "call" and callee(e.data[3]) in SOURCES or (
                    e.kind == "call" and is_http(e.data[3])):
                rep.ob("fetch-not-from-token", pos(W, e),
                       not token_derived(e.data[3]), "key retrieval",
                       "[%s] keys are retrieved from where the token says: "
                       "%s" % (r.variant, show(e.data[3], 4)[:150]))
    each_variant(W, rep, ("verify_compact", "verify_compact_verbose"),
                 own_only, algs,
                 assume=[(T("truthy", param("keys")), False)])
    passthrough(W, rep, "keys")
    c06_json(W, rep)


def is_http(t):
    if t.op == "fresh":
        t = t.args[0]
    f = t.args[0] if t.op == "call" else t
    while f.op == "attr":
        f = f.args[0]
        if f.op == "call":
            f = f.args[0]
    return f.op == "ext" and f.args[0].startswith(
        ("requests.", "urllib", "http.client", "socket."))


def fetches(W, rep, r):
    for e in r.events:
        if e.kind != "call":
            continue
        t = e.data[3]
        if callee(t) in SOURCES or is_http(t):
            rep.ob("no-retrieval", pos(W, e), False, "key retrieval",
                   "[%s] keys are fetched although the caller gave keys: %s"
                   % (r.variant, show(t, 3)[:150]))


def c06_json(W, rep):
    """with keys given (even none of them) the object the compact
    verification runs on holds no key reference out of the token"""
    from ..values import mk_cmp
    asm = [(mk_cmp("is", param("keys"), NONE), False)]
    for opt in (False, True):
        r = json_run(W, opt, assume=asm)
        rep.stat(r.I)
        n = 0
        for e, kw in vcalls(r):
            o = kw.get("self")
            if o is None or o.op != "objv":
                continue
            n += 1
            d = dict(o.args[2]).get("_dict")
            for name in ("jwk", "jku", "x5u"):
                v = header_get(d, name) if d is not None else None
                bad = [x for x in v or () if x is not None and
                       token_derived(x)]
                ok = not bad or entails(
                    e.facts, lambda fs: true_of(
                        fs, lambda t: t is param("keys")))
                rep.ob("json-key-not-from-token", pos(W, e), ok,
                       "header parameter %s of the verifier" % name,
                       "the key named by the token itself is trusted when "
                       "the caller's collection of keys is empty")
        fetches(W, rep, r)
