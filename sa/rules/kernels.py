"""What the registered signature primitives compute and accept (C07, C08) and
how MACs are compared (C25)."""
from ..terms import T, C, NONE, TRUE, FALSE, is_const, cval, subterms
from ..terms import show
from ..query import entails, callee, method_of, alts_of, strip_cmp_true
from ..query import strip_text
from ..runs import param
from ..project import AnalysisBroken
from .token import const_in, intc
from .jws import eq_any

# RFC 7518, section 3.1
HASHBITS = {"256": "SHA256", "384": "SHA384", "512": "SHA512"}
# RFC 7518, section 3.4 and FIPS 186: p, a = -3, b, order, base point, octets
CURVES = {
    "P-256": dict(
        p=2**256 - 2**224 + 2**192 + 2**96 - 1,
        n=int("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632"
              "551", 16),
        b=int("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d26"
              "04b", 16),
        g=(int("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898"
               "c296", 16),
           int("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf"
               "51f5", 16)), size=32, bits=256),
    "P-384": dict(
        p=2**384 - 2**128 - 2**96 + 2**32 - 1,
        n=int("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372"
              "ddf581a0db248b0a77aecec196accc52973", 16),
        b=int("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f50138"
              "75ac656398d8a2ed19d2a85c8edd3ec2aef", 16),
        g=(int("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e08254"
               "2a385502f25dbf55296c3a545e3872760ab7", 16),
           int("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0"
               "b8c00a60b1ce1d7e819d7a431d7c90ea0e5f", 16)),
        size=48, bits=384),
    "P-521": dict(
        p=2**521 - 1,
        n=int("1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
              "fffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71"
              "e91386409", 16),
        b=int("051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918e"
              "f109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd"
              "46b503f00", 16),
        g=(int("0c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606"
               "b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7"
               "e31c2e5bd66", 16),
           int("11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd172"
               "73e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be9"
               "4769fd16650", 16)), size=66, bits=521),
}
CURVE_OF = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
MODULUS_HASH = {"SHA256": 32, "SHA384": 48, "SHA512": 64}


def hash_of(alg):
    return HASHBITS.get(alg[2:])


def ext_is(t, *names):
    return t.op == "ext" and t.args[0] in names


def is_digest_module(t, h):
    """t denotes the hash `h` as a digest constructor / module"""
    low = h.lower()
    return ext_is(t, "Cryptodome.Hash." + h, "Cryptodome.Hash.%s.new" % h,
                  "hashlib." + low) or const_in(t, (low,))


def hash_object(t, h, msg):
    """t is a hash object of algorithm h over exactly msg"""
    data = []
    if t.op == "upd":
        data.append(t.args[1])
        t = t.args[0]
    if t.op != "call" or not is_digest_module(t.args[0], h):
        return False
    a = list(t.args[1]) + [v for k, v in t.args[2] if k == "data"]
    if a:
        data.insert(0, a[0])
    return len(data) == 1 and data[0] is msg


def is_hash_value(t, h, msg):
    r, n = method_of(t)
    if n == "digest" and not t.args[1]:
        return hash_object(r, h, msg)
    return False


def hmac_object(t, h, key, msg):
    data = []
    if t.op == "upd":
        data.append(t.args[1])
        t = t.args[0]
    if t.op != "call" or not ext_is(t.args[0], "Cryptodome.Hash.HMAC.new",
                                    "hmac.new", "hmac.HMAC"):
        return False
    names = ("key", "msg", "digestmod")
    kw = dict(zip(names, t.args[1]))
    kw.update(t.args[2])
    if kw.get("key") is not key:
        return False
    if "msg" in kw and not (is_const(kw["msg"]) and not cval(kw["msg"])):
        data.insert(0, kw["msg"])
    d = kw.get("digestmod")
    return d is not None and is_digest_module(d, h) and len(data) == 1 and \
        data[0] is msg


def is_hmac(t, h, key, msg):
    if t.op == "call" and ext_is(t.args[0], "hmac.digest") and \
            len(t.args[1]) == 3:
        k, m, d = t.args[1]
        return k is key and m is msg and is_digest_module(d, h)
    r, n = method_of(t)
    return n == "digest" and not t.args[1] and hmac_object(r, h, key, msg)


# -- equality of two byte strings, as a fact ---------------------------------
def len_eq(fs, p1, p2):
    def ln(pred):
        return lambda t: t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] == "len" and bool(t.args[1]) and \
            pred(t.args[1][0])
    if eq_any(fs, ln(p1), ln(p2)):
        return True
    # both lengths are compared with the same thing
    xs, ys = [], []
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] == "eq":
            for u, v in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if ln(p1)(u):
                    xs.append(v)
                if ln(p2)(u):
                    ys.append(v)
    return any(x in ys for x in xs)


def paired(e1, e2, p1, p2):
    """e1 and e2 are corresponding elements of the two strings"""
    for a, b in ((e1, e2), (e2, e1)):
        if a.op == "elem" and b.op == "elem" and a.args[0] == b.args[0] and \
                p1(a.args[1]) and p2(b.args[1]):
            return True
        if a.op == "item" and b.op == "item" and p1(a.args[0]) and \
                p2(b.args[0]) and a.args[1] is b.args[1] and \
                a.args[1].op in ("elem",):
            return covers(a.args[1].args[1], p1, p2)
        if a.op == "item" and b.op == "elem":
            # enumerate
            if p1(a.args[0]) and p2(b.args[1]) and a.args[1].op == "elem" \
                    and a.args[1].args[0] == b.args[0]:
                return True
    return False


def covers(it, p1, p2):
    """`range(len(x))` over one of the two strings"""
    if it.op == "call" and it.args[0].op == "builtin" and \
            it.args[0].args[0] == "range":
        a = it.args[1]
        if len(a) == 2 and const_in(a[0], (0,)):
            a = a[1:]
        if len(a) == 1 and a[0].op == "call" and \
                a[0].args[0].op == "builtin" and \
                a[0].args[0].args[0] == "len":
            x = a[0].args[1][0]
            return p1(x) or p2(x)
    return False


def ord_free(t):
    while t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] in ("ord", "int") and t.args[1]:
        t = t.args[1][0]
    return t


def xor_acc(t, p1, p2):
    """t accumulates the differences of all byte pairs"""
    if t.op != "mu" or not const_in(t.args[2], (0,)):
        return False
    mv = [u for u in subterms(T("x", t.args[3])) if u.op == "muvar" and
          u.args[0] == t.args[0]] if t.args[3] else []
    if not t.args[3]:
        return False
    for s in t.args[3]:
        if s.op != "bin" or s.args[0] not in ("|", "+"):
            return False
        x, y = s.args[1], s.args[2]
        if y.op == "muvar":
            x, y = y, x
        if x.op != "muvar" or x.args[1] != t.args[1]:
            return False
        if y.op != "bin" or y.args[0] != "^":
            return False
        if not paired(ord_free(y.args[1]), ord_free(y.args[2]), p1, p2):
            return False
    return True


def to_the_end(fs, p1, p2):
    """the loop over the bytes has no condition under which it stops"""
    for a, p in fs:
        if a.op == "forall" and p:
            it = list(subterms(a.args[1]))
            if any(p1(u) for u in it) and any(p2(u) for u in it):
                return False
    return True


def inside(t, p):
    """t is a piece of what p is about"""
    while not p(t):
        if t.op in ("slice", "item"):
            t = t.args[0]
        elif t.op == "elem":
            t = t.args[1]
        elif t.op == "call" and t.args[0].op == "builtin" and \
                t.args[0].args[0] in ("ord", "bytes", "bytearray", "list",
                                      "tuple", "zip", "enumerate", "hash",
                                      "iter", "reversed", "next", "repr",
                                      "str") and t.args[1]:
            return any(inside(x, p) for x in t.args[1])
        elif t.op == "call" and t.args[0].op == "attr" and \
                t.args[0].args[1] in ("hex", "encode", "decode"):
            t = t.args[0].args[0]
        else:
            return False
    return True


def early(fs, p1, p2):
    """a condition on the path compares pieces of the two byte strings"""
    from ..query import flat_atoms
    for f in fs:
        for a in flat_atoms(f):
            if a.op != "cmp" or a.args[0] not in ("eq", "is", "lt", "le",
                                                  "gt", "ge", "in"):
                continue
            x, y = a.args[1], a.args[2]
            if p1(x) and p2(y) or p1(y) and p2(x):
                continue        # the comparison itself: bytes_equal
            if inside(x, p1) and inside(y, p2) or \
                    inside(y, p1) and inside(x, p2):
                return True
    return False


def bytes_equal(fs, p1, p2, plain=True):
    """do the facts say that the two byte strings are equal?  plain: an
    ordinary == counts"""
    for a, p in fs:
        t = strip_cmp_true(a, p)
        if t is not None and t.op == "call":
            if ext_is(t.args[0], "hmac.compare_digest",
                      "secrets.compare_digest", "_operator._compare_digest",
                      "operator._compare_digest") and len(t.args[1]) == 2:
                x, y = t.args[1]
                if (p1(x) and p2(y)) or (p1(y) and p2(x)):
                    return True
        if a.op == "cmp" and p and a.args[0] == "eq":
            x, y = a.args[1], a.args[2]
            if plain and ((p1(x) and p2(y)) or (p1(y) and p2(x))):
                return True
            for u, v in ((x, y), (y, x)):
                if const_in(u, (0,)) and xor_acc(v, p1, p2) and \
                        len_eq(fs, p1, p2) and \
                        (plain or to_the_end(fs, p1, p2)):
                    return True
        if a.op == "truthy" and not p and xor_acc(a.args[0], p1, p2) and \
                len_eq(fs, p1, p2) and \
                (plain or to_the_end(fs, p1, p2)):
            return True
        if plain and a.op == "forall" and p and len_eq(fs, p1, p2):
            if a.args[2] and all(any(
                    q and b.op == "cmp" and b.args[0] == "eq" and
                    paired(ord_free(b.args[1]), ord_free(b.args[2]), p1, p2)
                    for b, q in d) for d in a.args[2]):
                return True
    return False


# -- modular arithmetic ------------------------------------------------------
def modpoly(t, n, atom):
    """t mod n as a polynomial {monomial: coefficient}; atom() names leaves"""
    if is_const(t) and isinstance(cval(t), int):
        return {(): cval(t) % n}
    if t.op == "bin":
        op, x, y = t.args
        if op == "%" and intc(y) == n:
            return modpoly(x, n, atom)
        if op in ("+", "-", "*"):
            a, b = modpoly(x, n, atom), modpoly(y, n, atom)
            if a is None or b is None:
                return None
            out = {}
            if op == "*":
                for m1, c1 in a.items():
                    for m2, c2 in b.items():
                        m = tuple(sorted(m1 + m2))
                        out[m] = (out.get(m, 0) + c1 * c2) % n
            else:
                out = dict(a)
                for m, c in b.items():
                    c = c if op == "+" else -c
                    out[m] = (out.get(m, 0) + c) % n
            return dict((m, c) for m, c in out.items() if c)
    x = inverse_arg(t, n)
    if x is not None:
        p = modpoly(x, n, atom)
        if p is None or len(p) != 1 or list(p.values()) != [1]:
            v = atom(x)
            return None if v is None else {(inv_name(v),): 1}
        (m, c), = p.items()
        return {tuple(sorted(inv_name(v) for v in m)): 1}
    v = atom(t)
    if v is None:
        return None
    return {(v,): 1}


def inv_name(v):
    return v[1:] if v.startswith("/") else "/" + v


def inverse_arg(t, n):
    if t.op == "call":
        q = callee(t)
        if (q == "jwkest.elliptic.inv" or ext_is(
                t.args[0], "Cryptodome.Util.number.inverse")) and \
                len(t.args[1]) == 2 and intc(t.args[1][1]) == n:
            return t.args[1][0]
        if t.args[0].op == "builtin" and t.args[0].args[0] == "pow" and \
                len(t.args[1]) == 3 and intc(t.args[1][2]) == n and \
                intc(t.args[1][1]) in (-1, n - 2):
            return t.args[1][0]
    return None


def to_int(t):
    """the byte string an integer was read from (big endian)"""
    if t.op == "call" and ext_is(
            t.args[0], "Cryptodome.Util.number.bytes_to_long") and \
            len(t.args[1]) == 1:
        return t.args[1][0]
    if t.op == "call" and t.args[0].op == "attr" and \
            t.args[0].args[1] == "from_bytes" and t.args[1]:
        a = t.args[1]
        kw = dict(t.args[2])
        if (len(a) > 1 and const_in(a[1], ("big",))) or const_in(
                kw.get("byteorder", NONE), ("big",)):
            return a[0]
    return None


def from_int(t):
    """(integer, octets) of a fixed width big endian encoding"""
    if t.op == "call" and ext_is(
            t.args[0], "Cryptodome.Util.number.long_to_bytes"):
        a = list(t.args[1]) + [v for k, v in t.args[2] if k == "blocksize"]
        if len(a) == 2 and intc(a[1]) is not None:
            return a[0], intc(a[1])
    r, n = method_of(t)
    if n == "to_bytes" and len(t.args[1]) >= 1 and \
            intc(t.args[1][0]) is not None:
        a = t.args[1]
        kw = dict(t.args[2])
        if (len(a) > 1 and const_in(a[1], ("big",))) or const_in(
                kw.get("byteorder", NONE), ("big",)):
            return r, intc(a[0])
    return None


def leaf_values(t, seen=None):
    """initial and step values of a loop-carried variable"""
    seen = set() if seen is None else seen
    if t in seen or t.op == "muvar":
        return
    seen.add(t)
    if t.op == "alt":
        for x in t.args[0]:
            for y in leaf_values(x, seen):
                yield y
    elif t.op == "mu":
        for x in (t.args[2],) + tuple(t.args[3]):
            for y in leaf_values(x, seen):
                yield y
    else:
        yield t


def is_hash_int(t, h, msg):
    """the message hash as an integer, possibly truncated from the right"""
    n = 0
    for v in leaf_values(t):
        while v.op == "bin" and v.args[0] == ">>":
            v = v.args[1]
        if v.op in ("mu", "alt"):
            if not is_hash_int(v, h, msg):
                return False
            n += 1
            continue
        if v.op == "muvar":
            continue
        b = to_int(v)
        if b is None or not is_hash_value(b, h, msg):
            return False
        n += 1
    return n > 0


def ec_point_call(t, name, cu):
    """arguments after the curve parameters of mulp/muladdp on curve cu"""
    if callee(t) != "jwkest.elliptic." + name:
        return None
    a = t.args[1]
    if len(a) < 4 or intc(a[0]) != 3 or intc(a[2]) != cu["p"]:
        return None
    # y^2 = x^3 - 3x - q here: q = -b mod p
    q = intc(a[1])
    if q is None or (q + cu["b"]) % cu["p"]:
        return None
    return a[3:]


def is_base(t, cu):
    return t.op == "tuple" and len(t.args) == 2 and \
        tuple(intc(x) for x in t.args) == cu["g"]


def same_mod(a, b, n):
    """strip reductions mod n"""
    def strip(t):
        while t.op == "bin" and t.args[0] == "%" and intc(t.args[2]) == n:
            t = t.args[1]
        return t
    return strip(a), strip(b)


class Kernel(object):
    """one registered signer"""

    def __init__(self, W, alg, meth):
        from .. import runs
        self.W = W
        self.alg = alg
        I = W.interp()
        fr = I.init.frames[("mod", "jwkest.jws")]
        o = I.obj(I.init, fr["SIGNER_ALGS"])
        self.ref = o.fields.get(C(alg), NONE)
        if self.ref.op != "ref":
            raise AnalysisBroken("no signer object for " + alg)
        cls = I.obj(I.init, self.ref).cls
        q = sorted(W.methods([cls], meth))
        if not q:
            raise AnalysisBroken("%s has no %s" % (cls, meth))
        self.q = q[0]
        names = [a.arg for a in I.funcs[self.q].node.args.args]
        I.stats.update(functions=set(), statements=0, calls=0, widened=0,
                       capped=0, unsupported=set())
        I.events = []
        I._ev_seen = set()
        ps = ["msg", "sig", "key"] if meth == "verify" else ["msg", "key"]
        env = {names[0]: self.ref}
        for n, p in zip(names[1:], ps):
            env[n] = param(p)
        self.res, self.raised = I.run_entry(self.q, env, I.init)
        self.I = I
        self.where = "%s for %s" % (self.q, alg)


def mac_accept(fs, h, plain=True):
    p1 = lambda t: is_hmac(t, h, param("key"), param("msg"))
    p2 = lambda t: t is param("sig")
    if not plain and early(fs, p1, p2):
        return False
    if bytes_equal(fs, p1, p2, plain):
        return True
    for a, p in fs:
        if a.op == "done" and p:
            r, n = method_of(a.args[0])
            if n == "verify" and a.args[0].args[1] and \
                    a.args[0].args[1][0] is param("sig") and \
                    hmac_object(r, h, param("key"), param("msg")):
                return True
    return False


RSA_BOOL = {"RS": ("Cryptodome.Signature.PKCS1_v1_5",),
            "PS": ("Cryptodome.Signature.PKCS1_PSS",)}
RSA_RAISE = {"RS": ("Cryptodome.Signature.pkcs1_15",),
             "PS": ("Cryptodome.Signature.pss",)}


def rsa_object(t, mods, key):
    return t.op == "call" and ext_is(
        t.args[0], *[m + ".new" for m in mods]) and \
        len(t.args[1]) == 1 and t.args[1][0] is key and not t.args[2]


def rsa_accept(fs, fam, h):
    for a, p in fs:
        t = strip_cmp_true(a, p)
        if t is None:
            continue
        r, n = method_of(t)
        if n != "verify" or len(t.args[1]) != 2:
            continue
        ho, sg = t.args[1]
        if sg is not param("sig") or not hash_object(ho, h, param("msg")):
            continue
        if a.op != "done" and rsa_object(r, RSA_BOOL[fam], param("key")):
            return True
        if a.op == "done" and rsa_object(r, RSA_RAISE[fam], param("key")):
            return True
    return False


def half(t, which, n):
    """the r (0) or s (1) half of the signature"""
    if t.op != "slice" or t.args[0] is not param("sig") or \
            t.args[3] is not NONE:
        return False
    lo, hi = t.args[1], t.args[2]
    if which == 0:
        return (lo is NONE or intc(lo) == 0) and intc(hi) in (n, -n)
    return intc(lo) in (n, -n) and (hi is NONE or intc(hi) == 2 * n)


def ecdsa_parts(cu):
    def isr(t):
        b = to_int(t)
        return b is not None and half(b, 0, cu["size"])

    def iss(t):
        b = to_int(t)
        return b is not None and half(b, 1, cu["size"])
    return isr, iss


def in_range(fs, isx, n):
    """0 < x < n"""
    lo = hi = False
    for a, p in fs:
        if a.op == "truthy" and p and isx(a.args[0]):
            lo = True           # x != 0, and x is never negative
        if a.op != "cmp":
            continue
        op, x, y = a.args
        if op == "eq" and not p and (
                (const_in(x, (0,)) and isx(y)) or
                (const_in(y, (0,)) and isx(x))):
            lo = True
        if op not in ("lt", "le"):
            continue
        strict = (op == "lt")
        if not p:
            x, y = y, x
            strict = not strict
        # x < y (strict) or x <= y
        if isx(y) and intc(x) is not None:
            if intc(x) >= (0 if strict else 1):
                lo = True
        if isx(x) and intc(y) is not None:
            if intc(y) <= (n if strict else n - 1):
                hi = True
    return lo and hi


def ecdsa_point(t, h, cu, isr, iss):
    """t is u1*G + u2*Q of the verification equation"""
    a = ec_point_call(t, "muladdp", cu)
    if a is None or len(a) != 4:
        return False
    if not is_base(a[0], cu):
        if is_base(a[2], cu):
            a = (a[2], a[3], a[0], a[1])
        else:
            return False
    g, u1, q, u2 = a
    if q is not param("key"):
        return False

    def atom(x):
        if isr(x):
            return "r"
        if iss(x):
            return "s"
        if is_hash_int(x, h, param("msg")):
            return "h"
        return None
    n = cu["n"]
    return modpoly(u1, n, atom) == {("/s", "h"): 1} and \
        modpoly(u2, n, atom) == {("/s", "r"): 1}


def ecdsa_accept(fs, h, cu):
    isr, iss = ecdsa_parts(cu)
    n = cu["n"]
    if not in_range(fs, isr, n) or not in_range(fs, iss, n):
        return False
    # exactly two field elements
    size = False
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] == "eq":
            for u, v in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if intc(u) == 2 * cu["size"] and v.op == "call" and \
                        v.args[0].op == "builtin" and \
                        v.args[0].args[0] == "len" and \
                        v.args[1][0] is param("sig"):
                    size = True
    if not size:
        return False
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] == "eq":
            x, y = same_mod(a.args[1], a.args[2], n)
            for u, v in ((x, y), (y, x)):
                if isr(u) and v.op == "item" and intc(v.args[1]) == 0 and \
                        ecdsa_point(v.args[0], h, cu, isr, iss):
                    return True
    return False


def accept_goal(alg, plain=True):
    h = hash_of(alg)
    fam = alg[:2]
    if fam == "HS":
        return lambda fs: mac_accept(fs, h, plain)
    if fam in ("RS", "PS"):
        return lambda fs: rsa_accept(fs, fam, h)
    if fam == "ES":
        cu = CURVES[CURVE_OF[alg]]
        return lambda fs: ecdsa_accept(fs, h, cu)
    return None


WANT = {"HS": "the HMAC-%s tag of the message under the key",
        "RS": "RSASSA-PKCS1-v1_5 with %s over the message",
        "PS": "RSASSA-PSS with %s over the message",
        "ES": "ECDSA with %s on the algorithm's curve: two field elements "
              "r, s in range with r = (u1 G + u2 Q).x"}


def signed_algs(W):
    return sorted(cval(k) for k, v in W.signer_classes().items() if v)


def accepting(k):
    """(state, value, facts) of the exits of a verify that may be truthy"""
    for st, v in k.res:
        v = k.I.freeze(st, v)
        for x in alts_of(v):
            if is_const(x):
                if not cval(x):
                    continue
                yield st, x, st.facts
            elif x.op == "alt":
                yield st, x, st.facts
            else:
                s2 = k.I.assume(st, T("truthy", x), True) \
                    if x.op not in ("cmp", "truthy") else \
                    k.I.assume(st, x, True)
                if s2 is None:
                    continue
                yield s2, x, s2.facts


def c07(W, rep):
    for alg in signed_algs(W):
        h = hash_of(alg)
        goal = accept_goal(alg)
        if goal is None or h is None:
            rep.ob("known-algorithm", "registry", False, alg,
                   "no specification for a registered algorithm")
            continue
        k = Kernel(W, alg, "verify")
        rep.stat(k.I)
        n = 0
        for st, v, fs in accepting(k):
            n += 1
            rep.ob("accepts-only-valid", k.where, entails(fs, goal),
                   "accepting exit", "the signature is accepted on a path "
                   "that does not establish: %s; returned %s" % (
                       WANT[alg[:2]] % h, show(v, 3)[:100]))
        rep.ob("accepts-something", k.where, n > 0, "accepting exit",
               "no signature is ever accepted")


def c08_sign(W, rep):
    """the emitted signature is the one RFC 7518 defines"""
    for alg in signed_algs(W):
        h = hash_of(alg)
        fam = alg[:2]
        if h is None or fam not in WANT:
            rep.ob("known-algorithm", "registry", False, alg,
                   "no specification for a registered algorithm")
            continue
        k = Kernel(W, alg, "sign")
        rep.stat(k.I)
        n = 0
        for st, v in k.res:
            v = k.I.freeze(st, v)
            for x in alts_of(v):
                n += 1
                rep.ob("signature-value", k.where,
                       sign_value(st, x, alg, h), "returned signature",
                       "is not %s: %s" % (
                           WANT[fam] % h if fam != "ES" else
                           "fixed width r || s of ECDSA with a fresh nonce",
                           show(x, 5)[:200]))
        if not n:
            rep.ob("signature-value", k.where, False, "returned signature",
                   "signing never succeeds")


def sign_value(st, x, alg, h):
    fam = alg[:2]
    msg, key = param("msg"), param("key")
    if fam == "HS":
        return is_hmac(x, h, key, msg)
    if fam in ("RS", "PS"):
        r, n = method_of(x)
        return n == "sign" and len(x.args[1]) == 1 and \
            hash_object(x.args[1][0], h, msg) and \
            rsa_object(r, RSA_BOOL[fam] + RSA_RAISE[fam], key)
    cu = CURVES[CURVE_OF[alg]]
    if x.op != "cat" or len(x.args) != 2:
        return False
    a, b = from_int(x.args[0]), from_int(x.args[1])
    if a is None or b is None or a[1] != cu["size"] or b[1] != cu["size"]:
        return False
    rs = [v for v in leaf_values(a[0]) if not const_in(v, (0,))]
    ss = [v for v in leaf_values(b[0]) if not const_in(v, (0,))]
    if not rs or not ss:
        return False
    for v in rs:
        if nonce_of_r(v, cu) is None:
            return False
    muvars = r_vars(a[0])
    for v in ss:
        if not is_s(v, h, cu, muvars):
            return False
    return nonzero(st, a[0]) and nonzero(st, b[0])


def r_vars(t):
    """the loop variable(s) that stand for r inside the loop"""
    return set((u.args[0], u.args[1]) for u in subterms(t) if u.op == "mu")


def nonzero(st, t):
    def goal(fs):
        for a, p in fs:
            if a.op == "truthy" and p and a.args[0] is t:
                return True
            if a.op == "cmp" and a.args[0] == "eq" and not p and t in \
                    a.args[1:] and any(const_in(u, (0,))
                                       for u in a.args[1:]):
                return True
        return False
    return entails(st.facts, goal)


def nonce_of_r(v, cu, reduced=True):
    """k if v is (kG).x mod n"""
    x = v
    if v.op == "bin" and v.args[0] == "%" and intc(v.args[2]) == cu["n"]:
        x = v.args[1]
    elif reduced:
        return None
    if x.op != "item" or intc(x.args[1]) != 0:
        return None
    a = ec_point_call(x.args[0], "mulp", cu)
    if a is None or len(a) != 2 or not is_base(a[0], cu):
        return None
    return a[1]


def is_s(v, h, cu, rvars):
    n = cu["n"]
    ks = set()

    def atom(x):
        if x is param("key"):
            return "d"
        if is_hash_int(x, h, param("msg")):
            return "h"
        k = nonce_of_r(x, cu, False)
        if k is not None:
            ks.add(k)
            return "r"
        if x.op == "muvar" and (x.args[0], x.args[1]) in rvars:
            return "r"
        return "?%d" % x.id
    if v.op != "bin" or v.args[0] != "%" or intc(v.args[2]) != n:
        return False
    p = modpoly(v, n, atom)
    if p is None or len(p) != 2:
        return False
    if any(c != 1 for c in p.values()):
        return False
    kk = set()
    shapes = set()
    for m in p:
        ki = [a for a in m if a.startswith("/?")]
        if len(ki) != 1:
            return False
        kk.add(ki[0])
        shapes.add(tuple(a for a in m if a != ki[0]))
    if len(kk) != 1 or shapes != set([("h",), ("d", "r")]):
        return False
    name = kk.pop()[2:]
    return not ks or set(str(k.id) for k in ks) == set([name])
