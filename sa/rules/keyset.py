"""Rules about key sets: what the lookups of KEYS answer with."""
import ast

from ..terms import T, C, NONE, is_const, cval, show
from ..query import entails, alts_of
from ..runs import run, param
from ..project import AnalysisBroken
from .keys import data, given

JWK = "jwkest.jwk."
SET = JWK + "KEYS"
KTYS = ("RSA", "oct", "EC")


def held(ktys, symkty=False):
    """a key set made with append: one key for each of the types, all with
    unknown key ids"""
    def make(I, st):
        for q in (SET, JWK + "RSAKey", JWK + "Key"):
            if q not in I.classes:
                raise AnalysisBroken("anchor class %s has vanished" % q)
        if SET + ".append" not in I.funcs:
            raise AnalysisBroken("anchor %s.append has vanished" % SET)
        fr = I.entry_frame()
        I.record = False
        made = I.instantiate(T("class", SET), [], {}, [], st,
                             I.classes[SET]["node"], fr)
        if len(made) != 1:
            raise AnalysisBroken("constructor of %s" % SET)
        st, ref = made[0]
        for i, kty in enumerate(ktys):
            cls = {"RSA": "RSAKey", "EC": "ECKey", "oct": "SYMKey"}.get(
                kty, "Key")
            st, k = I.new_symbolic(JWK + cls, st, name="k%d" % i)
            o = I.obj(st, k).with_field("kid", param("kid%d" % i))
            o = o.with_field("kty", C(kty))
            st = st.set_obj(k.args[0], o)
            r = call(I, st, "append", [ref, k])
            if not r:
                raise AnalysisBroken("%s.append does not return" % SET)
            # more than one way: growing() has judged them
            st = max((s for s, _ in r), key=lambda s: size(I, s, ref))
        I.record = True
        return st, ref
    return make


def size(I, st, ref):
    return max([len(members(I.freeze(s, v)) or ())
                for s, v in call(I, st, "keys", [ref])] or [0])


def call(I, st, name, args):
    if SET + "." + name not in I.funcs:
        raise AnalysisBroken("anchor %s.%s has vanished" % (SET, name))
    was, I.record = I.record, False
    try:
        return I.call_func(T("func", SET + "." + name, NONE, NONE), args, {},
                           [], st, ast.Module([], []), I.entry_frame())
    finally:
        I.record = was


def number(x):
    """which of the keys held"""
    if x.op == "objv":
        for k, v in x.args[2]:
            if k == "kid" and v.op == "param" and \
                    v.args[0].startswith("kid"):
                return int(v.args[0][3:])
    return None


def members(v):
    """the elements of an exactly known sequence"""
    if v.op == "tuple":
        return list(v.args)
    if v.op == "listv" and not v.args[1]:
        return list(v.args[0])
    return None


def keynos(v):
    m = members(v)
    if m is None:
        return None
    return [number(x) for x in m]


def same(a, b):
    return T("cmp", "eq", *sorted((a, b), key=lambda t: str(t)))


def says(facts, goal):
    return entails(facts, lambda fs: any(g in fs for g in goal))


def matches(facts, kid, want):
    """+1, -1, 0: the path found the ids equal, different, neither"""
    pos = [(T("cmp", "eq", kid, want), True), (T("cmp", "eq", want, kid),
                                               True)]
    neg = [(a, False) for a, _ in pos]
    if says(facts, pos):
        return 1
    if says(facts, neg):
        return -1
    return 0


def sets(tier):
    yield ()
    yield ("RSA", "oct", "EC")
    yield ("EC", "RSA", "RSA")
    if tier == "thorough":
        yield ("oct",)
        yield ("oct", "oct", "EC", "RSA")


def kept(rep, r, st, n, var, more=0):
    """the set still holds the keys it held, in order"""
    out = call(r.I, st, "keys", [r.env["self"]])
    for s2, v in out:
        got = members(r.I.freeze(s2, v))
        ok = got is not None and len(got) == n + more and \
            [number(x) for x in got[:n]] == list(range(n))
        rep.ob("unchanged", r.entry, ok, var,
               "afterwards the set holds %s" % (
                   got and [number(x) for x in got]))


def ask(W, rep, name, ktys, extra=()):
    I = W.interp([JWK + "keyrep", JWK + "jwk_wrap"], names=16)
    r = run(I, None, "%s.%s" % (SET, name), [("self", held(ktys))] +
            list(extra))
    rep.stat(I)
    return r


def c33(W, rep):
    W.key_attrs()
    for ktys in sets(rep.tier):
        by_id(W, rep, ktys)
        by_type(W, rep, ktys)
        listings(W, rep, ktys)
        grouped(W, rep, ktys)
        growing(W, rep, ktys)


def by_id(W, rep, ktys):
    n = len(ktys)
    r = ask(W, rep, "by_kid", ktys, ["kid"])
    var = "by_kid of %d keys" % n
    for st, v in r.values():
        got = keynos(v)
        rep.ob("exact-list", r.entry, got is not None and None not in got,
               var, "what is returned is %s" % show(v, 3)[:120])
        if got is None or None in got:
            continue
        rep.ob("order", r.entry, got == sorted(set(got)), var,
               "the keys returned are number %s" % got)
        for i in range(n):
            m = matches(st.facts, param("kid%d" % i), param("kid"))
            rep.ob("same-id", r.entry, m == (1 if i in got else -1),
                   "%s %d" % (var, i),
                   "a key is %s on a path that %s" % (
                       "returned" if i in got else "left out",
                       {1: "found its id equal", -1: "found its id different",
                        0: "did not compare its id"}[m]))
        kept(rep, r, st, n, var)
    rep.ob("answers", r.entry, len(r.res) > 0 and not r.raised, var,
           "a lookup ends with an exception or not at all")


def by_type(W, rep, ktys):
    n = len(ktys)
    for item in ("RSA", "rsa", "Rsa", "oct", "OCT", "EC", "ec", "none",
                 "RSA-OAEP", "o", ""):
        r = ask(W, rep, "__getitem__", ktys, [("item", C(item))])
        want = [i for i in range(n) if ktys[i].lower() == item.lower()]
        var = "%s of %s" % (item, ",".join(ktys))
        for st, v in r.values():
            got = keynos(v)
            rep.ob("same-type", r.entry, got == want, var,
                   "the keys returned are number %s, not %s" % (got, want))
            kept(rep, r, st, n, var)
        rep.ob("answers", r.entry, len(r.res) > 0 and not r.raised, var,
               "a lookup ends with an exception or not at all")


def listings(W, rep, ktys):
    n = len(ktys)
    var = "%d keys" % n
    r = ask(W, rep, "keys", ktys)
    for st, v in r.values():
        rep.ob("every-key", r.entry, keynos(v) == list(range(n)), var,
               "the keys listed are number %s" % keynos(v))
    r = ask(W, rep, "__iter__", ktys)
    for st, v in r.values():
        rep.ob("every-key", r.entry, keynos(v) == list(range(n)), var,
               "the keys iterated over are number %s" % keynos(v))
    r = ask(W, rep, "__len__", ktys)
    for st, v in r.values():
        rep.ob("every-key", r.entry, is_const(v) and cval(v) == n, var,
               "the number of keys is %s" % show(v, 3)[:60])
    r = ask(W, rep, "kids", ktys)
    for st, v in r.values():
        got = members(v)
        rep.ob("exact-list", r.entry, got is not None, var,
               "what is returned is %s" % show(v, 3)[:120])
        if got is None:
            continue
        ids = [param("kid%d" % i) for i in range(n)]
        rep.ob("order", r.entry, [x for x in ids if x in got] == got, var,
               "the ids are %s" % [show(x, 2)[:20] for x in got])
        for x in ids:
            empty = [(T("truthy", x), False), (T("cmp", "eq", x, C("")),
                                               True), (T("is", x, NONE),
                                                       True)]
            rep.ob("every-key", r.entry, x in got or says(st.facts, empty),
                   var + show(x, 1), "the id of a key is left out")
        kept(rep, r, st, n, var)
    r = ask(W, rep, "key_types", ktys)
    for st, v in r.values():
        types = set()
        for a in alts_of(v):
            types |= set(consts(a))
        rep.ob("types", r.entry, types == set(ktys), var + " types",
               "the types are %s" % sorted(types))


def consts(t):
    if is_const(t):
        return [cval(t)] if isinstance(cval(t), str) else []
    out = []
    for a in t.args:
        for x in (a if isinstance(a, tuple) else (a,)):
            if hasattr(x, "op"):
                out.extend(consts(x))
    return out


def grouped(W, rep, ktys):
    r = ask(W, rep, "as_dict", ktys)
    var = "as_dict of %s" % ",".join(ktys)
    for st, v in r.values():
        got = {}
        ok = v.op == "dictv"
        for e in (v.args[0] if ok else ()):
            k, x = e[0], e[1]
            got[cval(k) if is_const(k) else None] = keynos(x)
        want = {}
        for i, k in enumerate(ktys):
            want.setdefault(k, []).append(i)
        rep.ob("grouped", r.entry, ok and got == want, var,
               "the groups are %s, not %s" % (got, want))
        kept(rep, r, st, len(ktys), var)
    rep.ob("answers", r.entry, len(r.res) > 0 and not r.raised, var,
           "a lookup ends with an exception or not at all")


def growing(W, rep, ktys):
    n = len(ktys)
    two = given({"keys": [param("a"), param("b")]})
    for name, extra, more in (
            ("append", ["key"], 1), ("add", ["item"], 1),
            ("wrap_add", ["keyinst"], 1), ("load_dict", [("dikt", two)], 2)):
        r = ask(W, rep, name, ktys, extra)
        var = "%s to %d" % (name, n)
        for st, v in r.res:
            kept(rep, r, st, n, var, more)
        rep.ob("answers", r.entry, len(r.res) > 0, var, "no normal exit")
