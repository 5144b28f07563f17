"""Models of builtins, containers and library calls."""
import ast
import builtins as _b

from .terms import T, C, NONE, TRUE, FALSE, is_const, cval, subterms
from .values import (kind, known_len, mk_item_static, mk_cmp, cat, call, attr, ext,
                     fname)
from .state import ABSENT, UNBOUND, HObj

# ---------------------------------------------------------------------------
STR_PURE = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "encode",
            "decode", "startswith", "endswith", "replace", "casefold",
            "isdigit", "isalpha", "find", "index", "count", "hex", "zfill",
            "capitalize", "swapcase", "isupper", "islower", "removeprefix",
            "removesuffix"}


def pure_const_method(value, name, args):
    if isinstance(value, (str, bytes)) and name in STR_PURE:
        try:
            args = [a if not isinstance(a, T) else cval(a) for a in args]
            return C(getattr(value, name)(*args))
        except Exception:
            return None
    if isinstance(value, int) and name == "bit_length":
        return C(value.bit_length())
    return None


def codec(I, st, args):
    """canonical name of the codec encode or decode is called with"""
    if not args:
        return "utf8"
    a = I.resolve(st, I.freeze(st, args[0]))
    if not is_const(a) or not isinstance(cval(a), str):
        return None
    return cval(a).lower().replace("-", "").replace("_", "")


def const_binop(sym, a, b):
    try:
        if sym == "+":
            return C(a + b)
        if sym == "-":
            return C(a - b)
        if sym == "*":
            if isinstance(a, (str, bytes)) and b > 4096:
                return None
            if isinstance(b, (str, bytes)) and a > 4096:
                return None
            return C(a * b)
        if sym == "/":
            return C(a / b)
        if sym == "//":
            return C(a // b)
        if sym == "%":
            return C(a % b)
        if sym == "**":
            if isinstance(b, int) and abs(b) < 2048:
                return C(a ** b)
            return None
        if sym == "<<":
            if b > 8192:
                return None
            return C(a << b)
        if sym == ">>":
            return C(a >> b)
        if sym == "|":
            return C(a | b)
        if sym == "&":
            return C(a & b)
        if sym == "^":
            return C(a ^ b)
    except Exception:
        return None
    return None


CANON = {
    "sys.version": C("3.12.0 (main)"),
    "sys.version_info": C((3, 12, 0, "final", 0)),
    "six.string_types": T("builtin", "str"),
    "six.text_type": T("builtin", "str"),
    "six.binary_type": T("builtin", "bytes"),
    "six.integer_types": T("builtin", "int"),
    "six.PY2": FALSE,
    "six.PY3": TRUE,
    "six.iteritems": T("builtin", "items"),
    "six.iterkeys": T("builtin", "keys"),
    "six.itervalues": T("builtin", "values"),
    "Crypto": ext("Cryptodome"),
}
ALIAS = {
    "Cryptodome.Random.get_random_bytes": "Cryptodome.Random.get_random_bytes",
    "Cryptodome.PublicKey.RSA.importKey": "Cryptodome.PublicKey.RSA.import_key",
    "Cryptodome.Hash.SHA": "Cryptodome.Hash.SHA1",
}


def canon_ext(dotted):
    if dotted in CANON:
        return CANON[dotted]
    if dotted.startswith("Crypto."):
        dotted = "Cryptodome." + dotted[7:]
    if dotted.startswith("builtins."):
        return T("builtin", dotted[9:])
    for a, b in ALIAS.items():
        if dotted == a or dotted.startswith(a + "."):
            dotted = b + dotted[len(a):]
    return T("ext", dotted)


IMPURE_PREFIX = ("Cryptodome.Random.", "random.", "os.urandom", "secrets.",
                 "time.", "requests.", "uuid.", "datetime.", "os.",
                 "urllib.", "socket.", "Cryptodome.Util.number.getRandom",
                 "Cryptodome.PublicKey.RSA.generate", "numpy.random.")
PURE_EXC = ("os.path.",)
IMPURE_METHODS = {"read", "readline", "getrandbits", "randint", "randrange",
                  "choice", "random", "randbytes", "get_random_bytes",
                  "sample", "shuffle", "urandom"}
IMPURE_FUNCS = set()      # package functions treated as opaque and impure


def is_impure(f):
    if f.op == "ext":
        n = f.args[0]
        return n.startswith(IMPURE_PREFIX) and not n.startswith(PURE_EXC)
    if f.op == "attr":
        return f.args[1] in IMPURE_METHODS
    if f.op == "builtin":
        return f.args[0] in ("open", "input", "object", "id")
    if f.op == "func":
        return f.args[0] in IMPURE_FUNCS
    return False


HASHMODS = ("Cryptodome.Hash.", "hashlib.", "hmac.")


def is_hash_new(n):
    if n.startswith("Cryptodome.Hash.") and n.endswith(".new"):
        return True
    if n.startswith("hashlib.") and n.count(".") == 1 and \
            n not in ("hashlib.pbkdf2_hmac", "hashlib.scrypt"):
        return True
    return n == "hmac.new"


def upd(term, data):
    if term.op == "upd":
        return T("upd", term.args[0], cat([term.args[1], data]))
    return T("upd", term, data)


LOGM = {"debug", "info", "warning", "warn", "error", "exception", "critical",
        "log", "fatal"}


def is_logger(t):
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].args[0] == "logging.getLogger"


# ---------------------------------------------------------------------------
def fork_bool(I, st, atom):
    """[(st, TRUE/FALSE)] by assuming the atom both ways"""
    res = []
    s = I.assume(st, atom, True)
    if s is not None:
        res.append((s, TRUE))
    s = I.assume(st, atom, False)
    if s is not None:
        res.append((s, FALSE))
    return res


def new_list(I, st, node, fr, **kw):
    return I.alloc(st, HObj("list", **kw), node, fr)


def open_list_of(I, st, v, node, fr, kind_="list"):
    """a fresh list (set) holding the elements of v"""
    res = []
    ex = I.exact_seq(st, v)
    if ex is not None:
        st, ref = I.alloc(st, HObj(kind_, items=tuple(ex)), node, fr)
        return [(st, ref)]
    v = I.norm(st, v)
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind in ("list", "set"):
            st, ref = I.alloc(st, o.rep(kind=kind_), node, fr)
            return [(st, ref)]
    st, ref = I.alloc(st, HObj(kind_), node, fr)
    for s in I.list_extend(st, ref, v, node, fr):
        res.append((s, ref))
    return res


def builtin_term(I, f, args, kw, st, node, fr):
    """an unevaluated builtin application; references are kept"""
    return [(st, T("call", f, tuple(args), tuple(sorted(kw.items()))))]


def is_exc_name(n):
    k = getattr(_b, n, None)
    return isinstance(k, type) and issubclass(k, BaseException)


LAZY = {"zip", "enumerate", "reversed", "range", "xrange", "keys", "items",
        "values"}


def any_all(I, n, v, st, node, fr):
    want = n == "any"
    ex = I.exact_seq(st, v)
    if ex is not None:
        cur, res = [st], []
        for x in ex:
            nn = []
            for s in cur:
                for s2, b in I.truth(s, x, node, fr):
                    if b == want:
                        res.append((s2, C(want)))
                    else:
                        nn.append(s2)
            cur = nn
        res.extend((s, C(not want)) for s in cur)
        return I.merge_vals(res, fr)
    v = I.norm(st, v)
    o = I.obj(st, v) if v.op == "ref" else None
    if o is None or o.kind not in ("list", "set"):
        t = T("call", T("builtin", n), (I.freeze(st, v),), ())
        return fork_bool(I, st, t)
    res = []
    cur = [st]
    for x in o.items:
        nn = []
        for s in cur:
            for s2, b in I.truth(s, x, node, fr):
                if b == want:
                    res.append((s2, C(want)))
                else:
                    nn.append(s2)
        cur = nn
    tag = I.gen() + (("r", I.site(node, fr)),)
    dis = []
    for val, facts in o.summ:
        for s in cur:
            s1 = I.assume_all(s, [(I.specialise(a, tag), p)
                                  for a, p in facts])
            if s1 is not None:
                for s2, b in I.truth(s1, I.specialise(val, tag), node, fr):
                    if b == want:
                        res.append((s2, C(want)))
        # the other outcome: no element of this kind
        base = st.clone()
        base.facts = frozenset()
        base.eqc = {}
        b1 = I.assume_all(base, facts)
        if b1 is not None:
            for s2, b in I.truth(b1, val, node, fr):
                if b != want:
                    dis.append(s2.facts)
    it = o.mapseq[2] if o.mapseq else I.freeze(st, v)
    fa = T("forall", I.site(node, fr), it, frozenset(dis))
    for s in cur:
        if all(dis):
            s = s.add_fact(fa, True)
        res.append((s, C(not want)))
    return I.merge_vals(res, fr)


def getattr_default(I, st, b, name, default, node, fr):
    I.sinks.append([])
    I.try_depth += 1
    try:
        r = I.get_attr(st, b, name, node, fr)
    finally:
        I.try_depth -= 1
        raised = I.sinks.pop()
    res = list(r)
    for s, e in raised:
        q = e.args[0]
        if q in ("builtins.AttributeError", "*") or \
                "builtins.AttributeError" in I.mro(q):
            if default is not None:
                res.append((s, default))
            else:
                I.raise_(s, e)
        else:
            I.raise_(s, e)
    return res


def possible_names(st, t):
    if t.op == "elem" and t.args[1].op == "tuple" and \
            all(is_const(x) for x in t.args[1].args):
        return [cval(x) for x in t.args[1].args]
    return None


def call_builtin(I, f, args, kw, st, node, fr):
    n = f.args[0]
    if is_exc_name(n):
        return [(st, T("exc", "builtins." + getattr(_b, n).__name__,
                       tuple(I.freeze(st, a) for a in args)))]
    m = globals().get("b_" + n)
    if m is not None:
        r = m(I, args, kw, st, node, fr)
        if r is not None:
            return r
    if n in LAZY:
        return builtin_term(I, f, args, kw, st, node, fr)
    ra = [I.resolve(st, a) for a in args]
    if all(is_const(a) for a in ra) and not kw and n in (
            "int", "ord", "chr", "hex", "abs", "bin", "round", "pow", "str",
            "repr", "float", "min", "max", "bytes", "bool", "hash", "format",
            "oct"):
        try:
            v = getattr(_b, n)(*[cval(a) for a in ra])
            if isinstance(v, (int, str, bytes, float, bool)):
                return [(st, C(v))]
        except Exception as e:
            I.raise_(st, T("exc", "builtins." + type(e).__name__, ()))
            return []
    return I.opaque_call(f, args, kw, st, node, fr)


def b_len(I, args, kw, st, node, fr):
    v = I.norm(st, args[0])
    ex = I.exact_seq(st, v)
    if ex is not None:
        return [(st, C(len(ex)))]
    if v.op == "const" and isinstance(cval(v), (str, bytes)):
        return [(st, C(len(cval(v))))]
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls is not None:
            m = I.class_attr(st, o.cls, "__len__")
            if m is not None:
                return I.call_value(T("bound", m, v), [], {}, [], st, node, fr)
    t = I.freeze(st, v)
    while True:
        if t.op == "listv" and not t.args[0] and len(t.args[1]) == 1 and \
                t.args[1][0].op == "map":
            t = t.args[1][0].args[2]
        elif t.op == "call" and t.args[0].op == "builtin" and \
                t.args[0].args[0] in ("tuple", "list", "reversed", "sorted",
                                      "enumerate") and t.args[1]:
            t = t.args[1][0]
        else:
            break
    if t.op == "tuple":
        return [(st, C(len(t.args)))]
    n = known_len(t)
    if n is not None:
        return [(st, C(n))]
    r = call(T("builtin", "len"), (t,))
    c = st.eqc.get(r)
    I.may_raise(st)
    return [(st, c if c is not None else r)]


def b_isinstance(I, args, kw, st, node, fr):
    v = I.norm(st, args[0])
    c = I.freeze_seq(st, args[1])
    clss = []

    def flat(x):
        if x.op == "tuple":
            for y in x.args:
                flat(y)
        else:
            clss.append(x)
    flat(c)
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls is None:
            v = o.base
    res = []
    cur = st
    for k in clss:
        s = I.isinst_static(cur, v, k)
        if s is True:
            res.append((cur, TRUE))
            return res
        if s is False:
            continue
        vt = I.freeze(cur, v)
        at = T("isinst", vt, k)
        t = I.assume(cur, at, True)
        if t is not None:
            res.append((t, TRUE))
        cur = I.assume(cur, at, False)
        if cur is None:
            return res
    res.append((cur, FALSE))
    return res


def b_issubclass(I, args, kw, st, node, fr):
    if args[0].op == "class" and args[1].op == "class":
        return [(st, C(I.is_sub(args[0].args[0], args[1].args[0])))]
    return None


def b_bool(I, args, kw, st, node, fr):
    if not args:
        return [(st, FALSE)]
    return [(s, C(b)) for s, b in I.truth(st, args[0], node, fr)]


def b_str(I, args, kw, st, node, fr):
    if not args:
        return [(st, C(""))]
    v = I.norm(st, args[0])
    if len(args) == 1 and not kw:
        r = I.resolve(st, v)
        if kind(r) == "str":
            return [(st, r)]
        if v.op == "ref":
            o = I.obj(st, v)
            if o.kind == "inst" and o.cls is not None:
                m = I.class_attr(st, o.cls, "__str__")
                if m is not None:
                    return I.call_value(T("bound", m, v), [], {}, [], st, node,
                                        fr)
    return None


def b_repr(I, args, kw, st, node, fr):
    v = I.norm(st, args[0])
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls is not None:
            m = I.class_attr(st, o.cls, "__repr__")
            if m is not None:
                return I.call_value(T("bound", m, v), [], {}, [], st, node, fr)
    return None


def b_bytes(I, args, kw, st, node, fr):
    if not args:
        return [(st, C(b""))]
    if len(args) == 1 and not kw:
        r = I.resolve(st, I.norm(st, args[0]))
        if kind(r) == "bytes":
            return [(st, r)]
        if is_const(r) and isinstance(cval(r), int) and cval(r) <= 4096:
            return [(st, C(bytes(cval(r))))]
    else:
        # bytes(s, enc) == s.encode(enc)
        if kind(args[0]) == "str":
            return I.call_value(attr(args[0], "encode"), list(args[1:]), kw,
                                [], st, node, fr)
    return None


def b_int(I, args, kw, st, node, fr):
    if args and len(args) == 1 and kind(args[0]) == "int":
        return [(st, args[0])]
    return None


b_long = b_int


def b_list(I, args, kw, st, node, fr):
    if not args:
        st, ref = new_list(I, st, node, fr)
        return [(st, ref)]
    return open_list_of(I, st, args[0], node, fr)


def b_set(I, args, kw, st, node, fr):
    if not args:
        st, ref = I.alloc(st, HObj("set"), node, fr)
        return [(st, ref)]
    return open_list_of(I, st, args[0], node, fr, "set")


b_frozenset = b_set


def b_tuple(I, args, kw, st, node, fr):
    if not args:
        return [(st, T("tuple"))]
    ex = I.exact_seq(st, args[0])
    if ex is not None:
        return [(st, T("tuple", *ex))]
    v = I.norm(st, args[0])
    t = I.freeze(st, v)
    if kind(t) in ("list", "tuple") or t.op == "listv":
        return [(st, t)]
    return None


def b_dict(I, args, kw, st, node, fr):
    st, ref = I.alloc(st, HObj("dict"), node, fr)
    sts = [st]
    if args:
        v = I.norm(st, args[0])
        n = []
        for s in sts:
            isd = v.op == "dictv" or (v.op == "ref" and
                                      I.obj(s, v).kind == "dict")
            if isd:
                if v.op == "dictv":
                    s, v = I.thaw(s, v, node, fr)
                o = I.obj(s, v)
                n.append(s.set_obj(ref.args[0], o))
                continue
            ex = I.exact_seq(s, v)
            if ex is not None:
                acc = [s]
                for p in ex:
                    nn = []
                    for x in acc:
                        for y, k in I.get_item(x, p, C(0), node, fr):
                            for z, w in I.get_item(y, p, C(1), node, fr):
                                nn.extend(I.dict_set(z, ref, k, w))
                    acc = nn
                n.extend(acc)
                continue
            if v.op == "ref" and I.obj(s, v).kind == "list":
                summ = []
                for x, facts in I.obj(s, v).summ:
                    summ.append((mk_item_static(x, C(0)),
                                 mk_item_static(x, C(1)), facts))
                n.append(s.set_obj(ref.args[0],
                                   I.obj(s, ref).rep(summ=tuple(summ))))
                continue
            if v.op == "call" and v.args[0].op == "builtin" and \
                    v.args[0].args[0] in ("zip", "items", "enumerate"):
                L = I.site(node, fr)
                summ = []
                for s3, x in I.elem_of(s, v, L, node, fr, L):
                    df = frozenset((I.generalise(a, L), p)
                                   for a, p in s3.facts - s.facts)
                    summ.append((I.generalise(mk_item_static(x, C(0)), L),
                                 I.generalise(mk_item_static(x, C(1)), L), df))
                n.append(s.set_obj(ref.args[0],
                                   I.obj(s, ref).rep(summ=tuple(summ))))
                continue
            n.append(s.set_obj(ref.args[0], HObj("dict",
                                                 base=I.freeze(s, v))))
        sts = n
    for k, v in kw.items():
        n = []
        for s in sts:
            if k == "**":
                n.extend(I.dict_update(s, ref, v, node, fr))
            else:
                n.extend(I.dict_set(s, ref, C(k), v))
        sts = n
    return [(s, ref) for s in sts]


def b_sorted(I, args, kw, st, node, fr):
    ex = I.exact_seq(st, args[0])
    if ex is not None and all(is_const(x) for x in ex) and not kw:
        try:
            vals = sorted(cval(x) for x in ex)
            st, ref = new_list(I, st, node, fr,
                               items=tuple(C(x) for x in vals))
            return [(st, ref)]
        except TypeError:
            pass
    r = open_list_of(I, st, args[0], node, fr)
    out = []
    for s, ref in r:
        o = I.obj(s, ref)
        if o.items and len(o.items) > 1:
            summ = o.summ + tuple((x, frozenset()) for x in o.items)
            o = o.rep(items=(), summ=summ, open=True, mapseq=None)
            s = s.set_obj(ref.args[0], o)
        out.append((s, ref))
    return out


def b_map(I, args, kw, st, node, fr):
    if len(args) < 2:
        return None
    f = args[0]
    src = args[1] if len(args) == 2 else T(
        "call", T("builtin", "zip"), tuple(args[1:]), ())

    def app(s, x):
        xs = [x] if len(args) == 2 else [mk_item_static(x, C(i))
                                         for i in range(len(args) - 1)]
        return I.call_value(f, xs, {}, [], s, node, fr)
    return map_seq(I, src, app, st, node, fr)


def map_seq(I, src, app, st, node, fr):
    st, ref = new_list(I, st, node, fr)
    res = []
    for s, sq in I.iter_values(st, src, node, fr):
        if sq[0] == "exact":
            acc = [s]
            for x in sq[1]:
                n = []
                for y in acc:
                    for z, v in app(y, x):
                        n.append(I.list_append(z, ref, v))
                acc = n
            res.extend((y, ref) for y in acc)
            continue
        L = I.site(node, fr)
        I.loopstack.append(L)
        try:
            outs = []
            for s3, x in I.elements(s, sq, node, fr, L):
                outs.extend(app(s3, x))
        finally:
            I.loopstack.pop()
        summ = []
        ids = frozenset(s.heap)
        for s3, v in outs:
            df = frozenset((I.generalise(a, L), p)
                           for a, p in s3.facts - s.facts)
            v = I.generalise(I.freeze_new(s3, v, ids), L)
            if (v, df) not in summ:
                summ.append((v, df))
        mapseq = None
        if len(summ) == 1:
            itt = I.freeze(s, sq[2])
            es = [u for u in subterms(summ[0][0])
                  if u.op == "elem" and u.args[2] == ("*",) and
                  u.args[1] is itt]
            if len(es) == 1:
                mapseq = (es[0], summ[0][0], itt)
        o = I.obj(s, ref)
        res.append((s.set_obj(ref.args[0], o.rep(
            open=True, summ=tuple(summ), mapseq=mapseq)), ref))
    return res


def b_filter(I, args, kw, st, node, fr):
    f = args[0]
    st, ref = new_list(I, st, node, fr)
    res = []
    for s, sq in I.iter_values(st, args[1], node, fr):
        def test(y, x):
            if f is NONE:
                return I.truth(y, x, node, fr)
            out = []
            for z, v in I.call_value(f, [x], {}, [], y, node, fr):
                out.extend(I.truth(z, v, node, fr))
            return out
        if sq[0] == "exact" and len(sq[1]) <= 6:
            acc = [s]
            for x in sq[1]:
                n = []
                for y in acc:
                    for z, b in test(y, x):
                        n.append(I.list_append(z, ref, x) if b else z)
                acc = I.merge(n, fr)
            res.extend((y, ref) for y in acc)
            continue
        L = I.site(node, fr)
        I.loopstack.append(L)
        summ = []
        try:
            for s3, x in I.elements(s, sq, node, fr, L):
                for z, b in test(s3, x):
                    if b:
                        df = frozenset((I.generalise(a, L), p)
                                       for a, p in z.facts - s.facts)
                        summ.append((I.generalise(x, L), df))
        finally:
            I.loopstack.pop()
        o = I.obj(s, ref)
        res.append((s.set_obj(ref.args[0], o.rep(
            open=True, summ=tuple(summ))), ref))
    return res


def b_any(I, args, kw, st, node, fr):
    return any_all(I, "any", args[0], st, node, fr)


def b_all(I, args, kw, st, node, fr):
    return any_all(I, "all", args[0], st, node, fr)


def b_iter(I, args, kw, st, node, fr):
    return [(st, args[0])]


def b_next(I, args, kw, st, node, fr):
    v = I.norm(st, args[0])
    res = []
    ex = I.exact_seq(st, v)
    if ex is not None:
        if ex:
            return [(st, ex[0])]
        if len(args) > 1:
            return [(st, args[1])]
        I.raise_(st, T("exc", "builtins.StopIteration", ()))
        return []
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "list" and o.items:
            return [(st, o.items[0])]
        if o.kind == "list":
            tag = I.gen() + (("r", I.site(node, fr)),)
            res = I.pick(st, o.summ, tag)
        else:
            L = I.site(node, fr)
            res = I.elem_of(st, v, L, node, fr, L)
    elif v.op == "call" and v.args[0].op == "builtin" and \
            v.args[0].args[0] in LAZY:
        L = I.site(node, fr)
        res = I.elem_of(st, v, L, node, fr, L)
    else:
        L = I.site(node, fr)
        res = I.elem_of(st, v, L, node, fr, L)
    if len(args) > 1:
        res = list(res) + [(st, args[1])]
    else:
        if I.try_depth > 0:
            I.sinks[-1].append((st, T("exc", "builtins.StopIteration", ())))
    return I.merge_vals(list(res), fr)


def b_getattr(I, args, kw, st, node, fr):
    nm = I.resolve(st, args[1])
    d = args[2] if len(args) > 2 else None
    if is_const(nm):
        if d is None:
            return I.get_attr(st, args[0], cval(nm), node, fr)
        return getattr_default(I, st, args[0], cval(nm), d, node, fr)
    names = possible_names(st, nm)
    if names is not None and len(names) <= 16:
        res = []
        for x in names:
            s = I.assume(st, mk_cmp("eq", nm, C(x)), True)
            if s is None:
                continue
            if d is None:
                res.extend(I.get_attr(s, args[0], x, node, fr))
            else:
                res.extend(getattr_default(I, s, args[0], x, d, node, fr))
        return res
    I.may_raise(st)
    t = T("call", T("builtin", "getattr"), (I.freeze(st, args[0]), nm), ())
    res = [(st, t)]
    if d is not None:
        res.append((st, d))
    return res


def b_hasattr(I, args, kw, st, node, fr):
    nm = I.resolve(st, args[1])
    v = I.norm(st, args[0])
    if is_const(nm) and v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls is not None:
            r = getattr_default(I, st, v, cval(nm), T("noattr"), node, fr)
            return [(s, C(x.op != "noattr")) for s, x in r]
    if is_const(nm) and kind(v) in ("bytes", "str", "int"):
        k = {"bytes": bytes, "str": str, "int": int}[kind(v)]
        return [(st, C(hasattr(k, cval(nm))))]
    t = T("call", T("builtin", "hasattr"), (I.freeze(st, v), nm), ())
    return fork_bool(I, st, t)


def b_setattr(I, args, kw, st, node, fr):
    nm = I.resolve(st, args[1])
    if is_const(nm):
        return [(s, NONE) for s in I.set_attr(st, args[0], cval(nm), args[2],
                                              node, fr)]
    v = I.norm(st, args[0])
    I.event("setattr", node, fr, (v, nm, I.freeze(st, args[2])), st)
    names = possible_names(st, nm)
    if v.op == "ref" and I.obj(st, v).kind == "inst":
        o = I.obj(st, v)
        if names is not None:
            res = []
            for x in names:
                s = I.assume(st, mk_cmp("eq", nm, C(x)), True)
                if s is not None:
                    res.extend((y, NONE) for y in I.set_attr(
                        s, v, x, args[2], node, fr))
            return res
        f = dict(o.fields)
        for k, old in o.fields.items():
            f[k] = T("alt", frozenset([old, I.freeze(st, args[2])]))
        st = st.set_obj(v.args[0], o.rep(fields=f))
    return [(st, NONE)]


def b_delattr(I, args, kw, st, node, fr):
    return [(st, NONE)]


def b_type(I, args, kw, st, node, fr):
    if len(args) != 1:
        return None
    v = I.norm(st, args[0])
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls is not None:
            return [(st, T("class", o.cls))]
        if o.kind in ("dict", "list", "set"):
            return [(st, T("builtin", o.kind))]
    k = kind(v)
    if k in ("str", "bytes", "int", "bool", "tuple", "list", "dict"):
        return [(st, T("builtin", k))]
    return None


def b_callable(I, args, kw, st, node, fr):
    if kind(args[0]) == "callable":
        return [(st, TRUE)]
    return None


def b_print(I, args, kw, st, node, fr):
    fa = tuple(I.freeze(st, a) for a in args)
    I.event("log", node, fr, (T("builtin", "print"), fa), st)
    return [(st, NONE)]


def b_vars(I, args, kw, st, node, fr):
    if args:
        v = I.norm(st, args[0])
        if v.op == "ref":
            return [(st, T("objdict", v))]
    return None


def b_reversed(I, args, kw, st, node, fr):
    ex = I.exact_seq(st, args[0])
    if ex is not None:
        return [(st, T("tuple", *reversed(ex)))]
    r = I.norm(st, args[0])
    if r.op == "call" and r.args[0].op == "builtin" and \
            r.args[0].args[0] in ("range", "xrange") and not r.args[2]:
        a = list(r.args[1])
        if len(a) == 1:
            a.insert(0, C(0))
        if len(a) == 2 or len(a) == 3 and const_is(a[2], 1):
            res = []
            for s, hi in I.binop(ast.Sub(), a[1], C(1), st, node, fr):
                for s2, lo in I.binop(ast.Sub(), a[0], C(1), s, node, fr):
                    res.append((s2, T("call", r.args[0],
                                      (hi, lo, C(-1)), ())))
            return res
    return None


def const_is(t, v):
    return t.op == "const" and t.args[0] == "int" and cval(t) == v


def b_object(I, args, kw, st, node, fr):
    return None


def b_super(I, args, kw, st, node, fr):
    return [(st, T("super", fr.cls, fr.selfref))]


def b_divmod(I, args, kw, st, node, fr):
    a, b = I.freeze(st, args[0]), I.freeze(st, args[1])
    return [(st, T("tuple", T("bin", "//", a, b), T("bin", "%", a, b)))]


def b_pow(I, args, kw, st, node, fr):
    return None


# ---------------------------------------------------------------------------
MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse",
            "clear", "update", "setdefault", "popitem", "add", "discard",
            "__setitem__", "__delitem__", "difference_update",
            "intersection_update"}


def call_container(I, f, args, kw, st, node, fr):
    ref, m = f.args
    ref = I.norm(st, ref)
    o = I.obj(st, ref)
    if m in MUTATORS:
        I.event("mutate", node, fr,
                (ref, m, tuple(I.freeze(st, a) for a in args)), st)
    if o.kind == "dict":
        return dict_method(I, ref, o, m, args, kw, st, node, fr)
    return list_method(I, ref, o, m, args, kw, st, node, fr)


def dict_method(I, ref, o, m, args, kw, st, node, fr):
    if m in ("keys", "items", "values", "iterkeys", "iteritems",
             "itervalues"):
        m = m[4:] if m.startswith("iter") else m
        return [(st, T("call", T("builtin", m), (ref,), ()))]
    if m in ("get", "__getitem__"):
        k = I.resolve(st, I.freeze(st, args[0]))
        d = args[1] if len(args) > 1 else NONE
        res = []
        for s, v in I.dict_get(st, ref, k, node, fr):
            res.append((s, d if v is ABSENT else v))
        return I.merge_vals(res, fr)
    if m == "__contains__":
        return [(s, v) for s, v in I.contains(args[0], ref, st, node, fr)]
    if m == "setdefault":
        k = I.resolve(st, I.freeze(st, args[0]))
        d = args[1] if len(args) > 1 else NONE
        res = []
        for s, v in I.dict_get(st, ref, k, node, fr):
            if v is ABSENT:
                for s2 in I.dict_set(s, ref, k, d):
                    res.append((s2, d))
            else:
                res.append((s, v))
        return res
    if m == "pop":
        k = I.resolve(st, I.freeze(st, args[0]))
        res = []
        for s, v in I.dict_get(st, ref, k, node, fr):
            if v is ABSENT:
                if len(args) > 1:
                    if is_const(k):
                        for s2 in I.dict_set(s, ref, k, ABSENT):
                            res.append((s2, args[1]))
                    else:
                        res.append((s, args[1]))
                else:
                    I.raise_(s, T("exc", "builtins.KeyError", (k,)))
            else:
                if is_const(k):
                    for s2 in I.dict_set(s, ref, k, ABSENT):
                        res.append((s2, v))
                else:
                    res.append((s, v))
        return res
    if m == "update":
        sts = [st]
        for a in args:
            n = []
            for s in sts:
                a2 = I.norm(s, a)
                if a2.op == "ref" and I.obj(s, a2).kind == "list" or \
                        a2.op == "tuple" or (
                            a2.op == "call" and a2.args[0].op == "builtin"):
                    for s2, d in b_dict(I, [a2], {}, s, node, fr):
                        n.extend(I.dict_update(s2, ref, d, node, fr))
                else:
                    n.extend(I.dict_update(s, ref, a2, node, fr))
            sts = n
        for k, v in kw.items():
            n = []
            for s in sts:
                if k == "**":
                    n.extend(I.dict_update(s, ref, v, node, fr))
                else:
                    n.extend(I.dict_set(s, ref, C(k), v))
            sts = n
        return [(s, NONE) for s in sts]
    if m == "copy":
        st, r = I.alloc(st, o, node, fr)
        return [(st, r)]
    if m == "clear":
        return [(st.set_obj(ref.args[0], HObj("dict")), NONE)]
    if m in ("has_key",):
        return [(s, v) for s, v in I.contains(args[0], ref, st, node, fr)]
    return I.opaque_call(T("attr", I.freeze(st, ref), m), args, kw, st, node,
                         fr)


def list_method(I, ref, o, m, args, kw, st, node, fr):
    if m in ("append", "add"):
        if o.kind == "set" and not o.open and args[0] in o.items:
            return [(st, NONE)]
        return [(I.list_append(st, ref, args[0]), NONE)]
    if m in ("extend", "update"):
        sts = [st]
        for a in args:
            n = []
            for s in sts:
                n.extend(I.list_extend(s, ref, a, node, fr))
            sts = n
        return [(s, NONE) for s in sts]
    if m == "insert":
        i = I.resolve(st, args[0])
        if not o.open and is_const(i):
            items = list(o.items)
            items.insert(cval(i), args[1])
            return [(st.set_obj(ref.args[0], o.rep(items=tuple(items))), NONE)]
        summ = o.summ + tuple((x, frozenset()) for x in o.items) + \
            ((args[1], st.facts),)
        return [(st.set_obj(ref.args[0], o.rep(items=(), open=True, summ=summ,
                                               mapseq=None)), NONE)]
    if m == "pop":
        i = I.resolve(st, args[0]) if args else C(-1)
        if o.kind == "list" and not o.open and is_const(i):
            items = list(o.items)
            try:
                v = items.pop(cval(i))
            except Exception:
                I.raise_(st, T("exc", "builtins.IndexError", ()))
                return []
            return [(st.set_obj(ref.args[0], o.rep(items=tuple(items))), v)]
        if o.kind == "list" and is_const(i) and 0 <= cval(i) < len(o.items):
            items = list(o.items)
            v = items.pop(cval(i))
            return [(st.set_obj(ref.args[0], o.rep(items=tuple(items))), v)]
        r = I.list_get(st, ref, i, node, fr) if o.kind == "list" else \
            I.pick(st, o.summ, I.gen() + (("r", I.site(node, fr)),)) + \
            [(st, x) for x in o.items]
        out = []
        for s, v in r:
            o2 = I.obj(s, ref)
            summ = o2.summ + tuple((x, frozenset()) for x in o2.items)
            out.append((s.set_obj(ref.args[0], o2.rep(
                items=(), open=True, summ=summ, mapseq=None)), v))
        return out
    if m in ("sort", "reverse"):
        if not o.open and len(o.items) <= 1:
            return [(st, NONE)]
        if not o.open and m == "reverse":
            return [(st.set_obj(ref.args[0],
                                o.rep(items=tuple(reversed(o.items)))), NONE)]
        if not o.open and all(is_const(x) for x in o.items) and not kw:
            try:
                items = tuple(sorted(o.items, key=cval))
                return [(st.set_obj(ref.args[0], o.rep(items=items)), NONE)]
            except TypeError:
                pass
        summ = o.summ + tuple((x, frozenset()) for x in o.items)
        return [(st.set_obj(ref.args[0], o.rep(items=(), open=True, summ=summ,
                                               mapseq=None)), NONE)]
    if m == "copy":
        st, r = I.alloc(st, o, node, fr)
        return [(st, r)]
    if m == "clear":
        return [(st.set_obj(ref.args[0], HObj(o.kind)), NONE)]
    if m in ("remove", "discard"):
        a = I.freeze(st, args[0])
        if not o.open and args[0] in o.items:
            items = list(o.items)
            items.remove(args[0])
            return [(st.set_obj(ref.args[0], o.rep(items=tuple(items))), NONE)]
        summ = o.summ + tuple((x, frozenset()) for x in o.items)
        return [(st.set_obj(ref.args[0], o.rep(items=(), open=True, summ=summ,
                                               mapseq=None)), NONE)]
    if m == "__contains__":
        return list(I.contains(args[0], ref, st, node, fr))
    if m in ("union",):
        st, r = I.alloc(st, o, node, fr)
        sts = [st]
        for a in args:
            n = []
            for s in sts:
                n.extend(I.list_extend(s, r, a, node, fr))
            sts = n
        return [(s, r) for s in sts]
    return I.opaque_call(T("attr", I.freeze(st, ref), m), args, kw, st, node,
                         fr)


def call_extobj(I, f, args, kw, st, node, fr):
    ref, m = f.args
    o = I.obj(st, ref)
    if m == "update":
        t = upd(o.term, I.freeze(st, args[0]))
        I.may_raise(st)
        return [(st.set_obj(ref.args[0], o.rep(term=t)), ref)]
    if m == "copy":
        st, r = I.alloc(st, o, node, fr)
        return [(st, r)]
    return I.opaque_call(T("attr", o.term, m), args, kw, st, node, fr)


# ---------------------------------------------------------------------------
def call_ext(I, f, args, kw, st, node, fr):
    n = f.args[0]
    last = n.rsplit(".", 1)[-1]
    if n.startswith("logging.") and last in LOGM or \
            n in ("warnings.warn", "sys.stdout.write", "sys.stderr.write",
                  "syslog.syslog", "pprint.pprint", "traceback.print_stack"):
        fa = tuple(I.freeze(st, a) for a in args) + \
            tuple(I.freeze(st, v) for v in kw.values())
        I.event("log", node, fr, (f, fa), st)
        return [(st, NONE)]
    if is_hash_new(n):
        fa = [I.freeze(st, a) for a in args]
        fk = dict((k, I.freeze(st, v)) for k, v in kw.items())
        if ".HMAC." in n or n == "hmac.new":
            key = fa[0] if fa else fk.get("key", NONE)
            msg = fa[1] if len(fa) > 1 else fk.get("msg", NONE)
            dm = fa[2] if len(fa) > 2 else fk.get("digestmod", NONE)
            t = T("call", f, (key,), (("digestmod", dm),))
        else:
            if n == "hashlib.new":
                t = T("call", f, tuple(fa[:1]), ())
                msg = fa[1] if len(fa) > 1 else NONE
            else:
                msg = fa[0] if fa else fk.get("data", NONE)
                fk.pop("data", None)
                t = T("call", f, (), tuple(sorted(fk.items())))
        I.event("call", node, fr, (f, tuple(fa), tuple(sorted(fk.items())), t),
                st)
        if msg is not NONE and not (is_const(msg) and cval(msg) == b""):
            t = upd(t, msg)
        I.may_raise(st)
        st, ref = I.alloc(st, HObj("ext", term=t), node, fr)
        return [(st, ref)]
    if n == "functools.partial":
        return [(st, T("partial", args[0], tuple(args[1:]),
                       tuple(sorted(kw.items()))))]
    if n == "functools.reduce" and len(args) == 3:
        ex = I.exact_seq(st, args[1])
        if ex is not None and len(ex) <= 16:
            cur = [(st, args[2])]
            for x in ex:
                nn = []
                for s, a in cur:
                    nn.extend(I.call_value(args[0], [a, x], {}, [], s, node,
                                           fr))
                cur = nn
            return cur
        return reduce_loop(I, args, st, node, fr)
    if n in ("copy.copy", "copy.deepcopy"):
        v = I.norm(st, args[0])
        if v.op == "ref":
            o = I.obj(st, v)
            if n == "copy.deepcopy":
                t = I.freeze(st, v)
                if t.op in ("dictv", "listv", "objv"):
                    # a private copy
                    if o.kind == "dict":
                        o = o.rep(fields=dict((k, I.freeze(st, x))
                                              for k, x in o.fields.items()))
                    elif o.kind in ("list", "set"):
                        o = o.rep(items=tuple(I.freeze(st, x)
                                              for x in o.items))
            st, r = I.alloc(st, o, node, fr)
            return [(st, r)]
        if v.op in ("const", "tuple", "func", "class"):
            return [(st, v)]
        return [(st, v)]
    if n in ("collections.OrderedDict", "collections.defaultdict"):
        return b_dict(I, args if last == "OrderedDict" else args[1:], kw, st,
                      node, fr)
    if n == "itertools.chain":
        st, ref = new_list(I, st, node, fr)
        sts = [st]
        for a in args:
            nn = []
            for s in sts:
                nn.extend(I.list_extend(s, ref, a, node, fr))
            sts = nn
        return [(s, ref) for s in sts]
    if n.startswith("operator.") and len(args) == 2:
        import ast
        ops = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "gt": ast.Gt,
               "le": ast.LtE, "ge": ast.GtE, "is_": ast.Is,
               "is_not": ast.IsNot}
        bops = {"or_": ast.BitOr, "xor": ast.BitXor, "and_": ast.BitAnd,
                "add": ast.Add, "sub": ast.Sub, "mul": ast.Mult}
        if last in ops:
            return I.compare(ops[last](), args[0], args[1], st, node, fr)
        if last in bops:
            return I.binop(bops[last](), args[0], args[1], st, node, fr)
        if last == "contains":
            return I.contains(args[1], args[0], st, node, fr)
        if last == "getitem":
            return I.get_item(st, args[0], args[1], node, fr)
    if n in ("six.ensure_str", "six.ensure_text", "six.ensure_binary"):
        if kind(args[0]) == ("bytes" if last == "ensure_binary" else "str"):
            return [(st, args[0])]
    if n == "math.ceil" and is_const(args[0]):
        import math
        return [(st, C(math.ceil(cval(args[0]))))]
    if n in ("typing.cast",):
        return [(st, args[1])]
    if n in ("json.dumps", "json.loads") and False:
        pass
    return I.opaque_call(f, args, kw, st, node, fr)


def reduce_loop(I, args, st, node, fr):
    f, seq, init = args
    L = I.site(node, fr)
    mv = T("muvar", L, "$reduce")
    res = []
    for s, sq in I.iter_values(st, seq, node, fr):
        steps = set()
        I.loopstack.append(L)
        try:
            for s2, x in I.elements(s, sq, node, fr, L):
                for s3, v in I.call_value(f, [mv, x], {}, [], s2, node, fr):
                    steps.add(I.generalise(I.freeze(s3, v), L))
        finally:
            I.loopstack.pop()
        m = T("mu", L, "$reduce", I.freeze(s, init), frozenset(steps))
        I.mu_info[m] = (I.freeze(s, sq[2]), tuple((v, frozenset())
                                                  for v in steps))
        res.append((s, m))
    return res


# ---------------------------------------------------------------------------
DICT_ONLY = {"setdefault", "popitem"}


def call_method(I, f, args, kw, st, node, fr):
    """f = attr(term, name): a method of a value that is not a package
    object"""
    b, m = f.args
    if is_logger(b) and m in LOGM:
        fa = tuple(I.freeze(st, a) for a in args) + \
            tuple(I.freeze(st, v) for v in kw.values())
        I.event("log", node, fr, (f, fa), st)
        return [(st, NONE)]
    rb = I.resolve(st, b)
    if is_const(rb):
        v = cval(rb)
        ra = [I.resolve(st, I.norm(st, a)) for a in args]
        if isinstance(v, (str, bytes)):
            if m == "join" and len(args) == 1:
                return join(I, rb, args[0], st, node, fr)
            if m == "format" and isinstance(v, str):
                ra2 = [I.resolve(st, I.freeze(st, a)) for a in args]
                rk = dict((k, I.resolve(st, I.freeze(st, w)))
                          for k, w in kw.items())
                if all(is_const(x) for x in ra2) and \
                        all(is_const(x) for x in rk.values()):
                    try:
                        return [(st, C(v.format(
                            *[cval(x) for x in ra2],
                            **dict((k, cval(x)) for k, x in rk.items()))))]
                    except Exception:
                        pass
                return [(st, T("fmt", rb, *([I.freeze(st, a) for a in args] +
                                            [I.freeze(st, w)
                                             for w in kw.values()])))]
            if m in ("split", "rsplit", "partition", "rpartition",
                     "splitlines") and all(is_const(x) for x in ra) and \
                    not kw:
                try:
                    r = getattr(v, m)(*[cval(x) for x in ra])
                except Exception:
                    r = None
                if r is not None:
                    if isinstance(r, tuple):
                        return [(st, C(r))]
                    st, ref = new_list(I, st, node, fr,
                                       items=tuple(C(x) for x in r))
                    return [(st, ref)]
            if m in ("startswith", "endswith") and len(ra) == 1 and \
                    ra[0].op == "tuple" and all(is_const(x)
                                                for x in ra[0].args):
                return [(st, C(getattr(v, m)(tuple(cval(x)
                                                   for x in ra[0].args))))]
            if all(is_const(x) for x in ra) and not kw:
                c = pure_const_method(v, m, [cval(x) for x in ra])
                if c is not None:
                    return [(st, c)]
            if not hasattr(v, m):
                I.raise_(st, T("exc", "builtins.AttributeError", ()))
                return []
        elif v is None:
            I.raise_(st, T("exc", "builtins.AttributeError", ()))
            return []
    kb = kind(b)
    if kb in ("bytes", "str", "int", "bool") and m not in ("format",):
        k = {"bytes": bytes, "str": str, "int": int, "bool": bool}[kb]
        if not hasattr(k, m):
            I.raise_(st, T("exc", "builtins.AttributeError", ()))
            return []
    if m == "decode" and not kw and len(args) < 2:
        # text that was just encoded the same way
        e = b.args[0] if b.op == "fresh" else b
        if e.op == "call" and e.args[0].op == "attr" and \
                e.args[0].args[1] == "encode" and not e.args[2] and \
                len(e.args[1]) < 2 and codec(I, st, e.args[1]) is not None \
                and codec(I, st, e.args[1]) == codec(I, st, args):
            return [(st, e.args[0].args[0])]
    if m == "join" and len(args) == 1 and kb in ("bytes", "str"):
        return join(I, b, args[0], st, node, fr)
    if m == "format" and kb == "str":
        return [(st, T("fmt", b, *[I.freeze(st, a) for a in args]))]
    if m in ("keys", "items", "values", "iteritems", "iterkeys",
             "itervalues") and not args and b.op not in ("ext",):
        m = m[4:] if m.startswith("iter") else m
        I.may_raise(st)
        return [(st, call(T("builtin", m), (b,)))]
    if m == "get" and args and not kw and kb is None and \
            not from_lib_object(b):
        k = I.resolve(st, I.freeze(st, args[0]))
        d = args[1] if len(args) > 1 else NONE
        atom = mk_cmp("in", k, b)
        res = []
        I.may_raise(st)
        s = I.assume(st, atom, True)
        if s is not None:
            res.append((s, mk_item_static(b, k)))
        s = I.assume(st, atom, False)
        if s is not None:
            res.append((s, d))
        return res
    if m == "__contains__" and len(args) == 1:
        return list(I.contains(args[0], b, st, node, fr))
    if m == "__getitem__" and len(args) == 1:
        return I.get_item(st, b, args[0], node, fr)
    if m == "__setitem__" and len(args) == 2:
        return [(s, NONE) for s in I.set_item(st, b, args[0], args[1], node,
                                              fr)]
    if m == "__eq__" and len(args) == 1:
        import ast
        return I.compare(ast.Eq(), b, args[0], st, node, fr)
    if m == "copy" and not args and not from_lib_object(b) and kb is None:
        st, ref = I.alloc(st, HObj("dict", base=b), node, fr)
        return [(st, ref)]
    if m in MUTATORS and kb in (None, "list", "dict"):
        if from_lib_object(b):
            if m == "update":
                st, ref = I.materialise(st, b, "ext", node, fr)
                return call_extobj(I, T("emeth", ref, m), args, kw, st, node,
                                   fr)
        else:
            how = "list" if m in ("append", "extend", "insert", "sort",
                                  "reverse", "remove") or kb == "list" \
                else "dict"
            if m == "pop" and (not args or kind(args[0]) == "int"):
                how = "list"
            st, ref = I.materialise(st, b, how, node, fr)
            return call_container(I, T("cmeth", ref, m), args, kw, st, node,
                                  fr)
    return I.opaque_call(f, args, kw, st, node, fr)


def from_lib_object(t):
    """value made by a library constructor: methods are not container methods
    """
    while t.op in ("fresh",):
        t = t.args[0]
    if t.op == "call":
        f = t.args[0]
        if f.op == "ext":
            return not f.args[0].startswith("json.")
    return t.op == "ext"


def join(I, sep, arg, st, node, fr):
    ex = I.exact_seq(st, arg)
    if ex is not None:
        parts = []
        for i, x in enumerate(ex):
            if i:
                parts.append(sep)
            parts.append(I.freeze(st, x))
        if not parts:
            return [(st, C(type(cval(sep))()) if is_const(sep) else sep)]
        return [(st, cat(parts))]
    I.may_raise(st)
    v = I.norm(st, arg)
    o = I.obj(st, v) if v.op == "ref" else None
    if o is not None and o.kind == "list" and o.items and o.open:
        # exact prefix, unknown rest
        rest = T("call", T("attr", sep, "join"), (I.freeze(
            st, v),), ())
        return [(st, rest)]
    return [(st, T("call", T("attr", sep, "join"), (I.freeze(st, v),), ()))]
