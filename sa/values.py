"""Smart constructors and static classification of terms."""
from .terms import T, C, NONE, TRUE, FALSE, is_const, cval, show, subterms

BYTES_METHODS = {"encode", "digest", "hexdigest_bytes", "pack", "tobytes",
                 "get_random_bytes", "to_bytes", "unhexlify", "a2b_base64",
                 "b64decode", "urlsafe_b64decode", "b64encode",
                 "urlsafe_b64encode", "long_to_bytes", "encrypt", "urandom",
                 "token_bytes", "compress", "decompress", "decrypt"}
STR_METHODS = {"decode", "format", "hexdigest", "dumps", "title", "repr"}
SAME_METHODS = {"lower", "upper", "strip", "rstrip", "lstrip", "replace",
                "ljust", "rjust", "zfill", "join"}
INT_FUNCS = {"len", "int", "ord", "hash", "bytes_to_long", "from_bytes",
             "abs", "getrandbits", "bit_length", "find", "index", "count"}


def fname(f):
    """last component of a callee term"""
    if f.op == "ext":
        return f.args[0].rsplit(".", 1)[-1]
    if f.op == "builtin":
        return f.args[0]
    if f.op == "attr":
        return f.args[1]
    if f.op == "func":
        return f.args[0].rsplit(".", 1)[-1]
    if f.op == "class":
        return f.args[0].rsplit(".", 1)[-1]
    return None


OPAQUE_KINDS = {}     # qualname of an opaque package function -> kind


_kinds = {}


def kind(t):
    try:
        return _kinds[t]
    except KeyError:
        r = _kinds[t] = _kind(t)
        return r


def _kind(t):
    op = t.op
    if op == "const":
        n = t.args[0]
        return {"NoneType": "none"}.get(n, n)
    if op == "tuple":
        return "tuple"
    if op == "cat":
        for p in t.args:
            k = kind(p)
            if k:
                return k
        return None
    if op == "fmt":
        return "str"
    if op == "slice":
        return kind(t.args[0])
    if op == "repeat":
        return kind(t.args[0])
    if op == "bin":
        if t.args[0] in ("-", "//", "**", "<<", ">>", "&", "^", "%", "*",
                         "+", "|"):
            if kind(t.args[1]) == "int" and kind(t.args[2]) == "int":
                return "int"
        return None
    if op in ("cmp", "not", "truthy", "isinst"):
        return "bool"
    if op in ("func", "class", "bound", "builtin", "mod", "ext", "partial"):
        return "callable"
    if op == "listv":
        return "list"
    if op == "dictv":
        return "dict"
    if op == "fresh":
        return kind(t.args[0])
    if op == "alt":
        ks = set(kind(x) for x in t.args[0])
        return ks.pop() if len(ks) == 1 else None
    if op == "mu":
        ks = set([kind(t.args[2])] + [kind(s) for s in t.args[3]
                                      if s.op != "muvar"])
        return ks.pop() if len(ks) == 1 else None
    if op == "call":
        f = t.args[0]
        if f.op == "func" and f.args[0] in OPAQUE_KINDS:
            return OPAQUE_KINDS[f.args[0]]
        n = fname(f)
        if n in SAME_METHODS and f.op == "attr":
            return kind(f.args[0])
        if f.op in ("attr", "ext"):
            if n in BYTES_METHODS:
                return "bytes"
            if n in STR_METHODS:
                return "str"
            if n in INT_FUNCS:
                return "int"
            if n == "split" and f.op == "attr":
                return "list"
            if f.op == "attr" and n == "sign":
                return "bytes"
        if f.op == "builtin":
            if n in ("str", "repr", "hex", "chr", "bin", "format"):
                return "str"
            if n in ("bytes", "bytearray"):
                return "bytes"
            if n in INT_FUNCS:
                return "int"
            if n in ("range", "zip", "enumerate", "map", "filter"):
                return "iter"
    return None


KDF = "jwkest.extra.ecdh_derive_key"


def packed_len(a):
    if len(a) == 1 and is_const(a[0]):
        x = cval(a[0])
        x = x.decode("latin-1") if isinstance(x, bytes) else x
        if isinstance(x, str) and x[:1] in "><!":
            return {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}.get(x[1:])
    return None


def digest_len(h):
    """length of the digest of a hash object"""
    while h.op in ("upd", "fresh"):
        h = h.args[0]
    if h.op == "call" and h.args[0].op == "ext":
        n = h.args[0].args[0]
        for p in ("Cryptodome.Hash.", "hashlib."):
            if n.startswith(p):
                n = n[len(p):]
                n = n[:-4] if n.endswith(".new") else n
                return {"SHA256": 32, "SHA384": 48, "SHA512": 64,
                        "SHA1": 20, "SHA": 20}.get(n.upper())
    return None


def known_len(t):
    """length of a bytes value, when its construction fixes it"""
    if t.op == "const" and isinstance(cval(t), (str, bytes)):
        return len(cval(t))
    if t.op == "fresh":
        return known_len(t.args[0])
    if t.op == "call":
        n = None
        a = t.args[1]
        f = t.args[0]
        if f.op == "ext" and fname(f) in ("get_random_bytes", "urandom",
                                          "token_bytes") and len(a) == 1:
            n = a[0]
        elif f.op == "attr" and f.args[1] == "read" and len(a) == 1:
            b = f.args[0]
            b = b.args[0] if b.op == "fresh" else b
            if b.op == "call" and b.args[0].op == "ext" and \
                    b.args[0].args[0] == "Cryptodome.Random.new":
                n = a[0]
        elif f.op == "func" and f.args[0] == KDF and len(a) == 7 and \
                is_int(a[6]):
            # decided by the rule on the key derivation
            return cval(a[6]) // 8
        elif f.op == "attr" and f.args[1] == "digest" and not a:
            return digest_len(f.args[0])
        elif f.op == "attr" and f.args[1] in ("encrypt", "decrypt") and \
                len(a) == 1 and f.args[0].op in ("call", "fresh"):
            b = f.args[0]
            b = b.args[0] if b.op == "fresh" else b
            if b.op == "call" and b.args[0].op == "ext" and \
                    b.args[0].args[0] == "Cryptodome.Cipher.AES.new":
                return known_len(a[0])
        elif f.op == "attr" and f.args[1] == "pack" and len(a) == 1 and \
                f.args[0].op == "call" and f.args[0].args[0].op == "ext" and \
                f.args[0].args[0].args[0] == "struct.Struct":
            return packed_len(f.args[0].args[1])
        elif f.op == "ext" and f.args[0] == "struct.pack" and len(a) == 2:
            return packed_len(a[:1])
        if n is not None and is_int(n):
            return cval(n)
    if t.op == "slice":
        n = known_len(t.args[0])
        if n is not None and all(x is NONE or is_int(x) for x in t.args[1:]):
            return len(range(n)[cval(t.args[1]):cval(t.args[2]):
                                cval(t.args[3])])
    if t.op == "cat":
        ns = [known_len(x) for x in t.args]
        if None not in ns:
            return sum(ns)
    if t.op == "alt":
        ns = set(known_len(x) for x in t.args[0])
        if len(ns) == 1:
            return ns.pop()
    return None


def mk_item_static(base, key):
    """item(base,key) with structural resolution of literal containers."""
    if base.op == "tuple" and is_const(key) and isinstance(cval(key), int) \
            and not isinstance(cval(key), bool):
        i = cval(key)
        if -len(base.args) <= i < len(base.args):
            return base.args[i]
    if base.op == "listv" and is_const(key) and isinstance(cval(key), int):
        items, tail = base.args[0], base.args[1]
        i = cval(key)
        if 0 <= i < len(items):
            return items[i]
        if not tail and -len(items) <= i < 0:
            return items[i]
    if base.op == "dictv" and is_const(key):
        for k, v in base.args[0]:
            if k is key and v.op != "absent":
                return v
        if base.args[2] is not NONE and not base.args[1]:
            return T("item", base.args[2], key)
    if base.op == "const" and is_const(key):
        try:
            return C(cval(base)[cval(key)])
        except Exception:
            pass
    return T("item", base, key)


def is_int(t):
    return is_const(t) and isinstance(cval(t), int) and \
        not isinstance(cval(t), bool)


def mk_cmp(op, a, b):
    if op in ("eq", "is"):
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            if op == "eq":
                return C(cval(a) == cval(b))
            return C(a is b)
        if a.op == "tuple" and b.op == "tuple" and op == "eq":
            if len(a.args) != len(b.args):
                return FALSE
        ka, kb = kind(a), kind(b)
        if ka and kb and ka != kb and not (
                {ka, kb} <= {"int", "bool", "float"}):
            return FALSE
        for x, y in ((a, b), (b, a)):
            # len(k) * 8 == 256  ->  len(k) == 32
            if op == "eq" and is_int(x) and y.op == "bin" and \
                    kind(y) == "int":
                o, u, v = y.args
                if is_int(u) and o in ("*", "+"):
                    u, v = v, u
                if is_int(v) and kind(u) == "int":
                    n, c = cval(x), cval(v)
                    if o == "*" and c:
                        if n % c:
                            return FALSE
                        return mk_cmp("eq", u, C(n // c))
                    if o == "+":
                        return mk_cmp("eq", u, C(n - c))
                    if o == "-":
                        return mk_cmp("eq", u, C(n + c))
        heads = ("func", "class", "ext", "mod", "builtin")
        if a.op in heads and b.op in heads and not (
                "ext" in (a.op, b.op) and a.op == b.op):
            return FALSE
        if b.id < a.id:
            a, b = b, a
        return T("cmp", op, a, b)
    if op in ("lt", "le") and is_const(a) and is_const(b):
        try:
            return C(cval(a) < cval(b) if op == "lt" else cval(a) <= cval(b))
        except TypeError:
            pass
    if op == "in" and is_const(a) and is_const(b):
        try:
            return C(cval(a) in cval(b))
        except TypeError:
            pass
    if op == "in" and b.op == "tuple" and is_const(a):
        if any(x is a or (is_const(x) and cval(x) == cval(a)) for x in b.args):
            return TRUE
        if all(is_const(x) for x in b.args):
            return FALSE
    return T("cmp", op, a, b)


def cat(parts):
    """concatenation, flattened; constants of the same type folded"""
    flat = []
    for p in parts:
        if p.op == "cat":
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if is_const(p) and isinstance(cval(p), (bytes, str)) and \
                len(cval(p)) == 0 and len(flat) > 1:
            continue
        if out and is_const(p) and is_const(out[-1]) and \
                type(cval(p)) is type(cval(out[-1])) and \
                isinstance(cval(p), (bytes, str)):
            out[-1] = C(cval(out[-1]) + cval(p))
        else:
            out.append(p)
    if not out:
        return flat[0]
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


def call(f, args=(), kwargs=()):
    return T("call", f, tuple(args), tuple(sorted(kwargs)))


def attr(t, name):
    if t.op == "ext":
        return T("ext", t.args[0] + "." + name)
    return T("attr", t, name)


def ext(name):
    return T("ext", name)
