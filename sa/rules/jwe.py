"""Rules about producing and consuming JSON Web Encryption tokens."""
from ..terms import T, C, NONE, TRUE, FALSE, is_const, cval, subterms, children
from ..terms import show
from ..query import entails, callee, method_of, alts_of, strip_cmp_true
from ..query import strip_text, call_args, flat_atoms
from ..runs import KEYCLASSES, JWE_OPAQUE, run, isinst, param
from ..project import AnalysisBroken
from ..report import parallel
from ..values import mk_cmp, known_len
from .token import Token, const_in, intc
from .jws import eq_any, where_end, pos, key_of, is_alg
from .kernels import (ext_is, is_digest_module, bytes_equal, to_int,
                      from_int, early)

# RFC 7518, sections 4 and 5
ALGS = ("RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "A128KW", "A192KW", "A256KW",
        "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW")
CBC = {"A128CBC-HS256": (16, "SHA256"), "A192CBC-HS384": (24, "SHA384"),
       "A256CBC-HS512": (32, "SHA512")}
GCM = {"A128GCM": 16, "A192GCM": 24, "A256GCM": 32}
ENCS = tuple(sorted(CBC)) + tuple(sorted(GCM))
CEKLEN = dict(GCM)
CEKLEN.update((k, 2 * v[0]) for k, v in CBC.items())
ZERO16 = b"\x00" * 16

_tok = Token(lambda t: t is param("token"), 5)
_memo = {}


def dec(t):
    """index of the token part t is the decoded form of"""
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = (_tok.decoded(t),)
    return r[0]


def is_dec(i):
    return lambda t: dec(strip_text(t)) == i


def is_aad(t):
    """the received text of the protected header"""
    return _tok.prefix(t, 1)


def length_of(t):
    if t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] == "len" and t.args[1]:
        return t.args[1][0]
    return None


def len_is(fs, pred, n):
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] == "eq":
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if intc(y) == n:
                    z = length_of(x)
                    if z is not None and pred(z):
                        return True
    return False


def times(t, k):
    """x if t is x * k"""
    if t.op != "bin":
        return None
    o, x, y = t.args
    if o == "*":
        if intc(y) == k:
            return x
        if intc(x) == k:
            return y
    if o == "<<" and intc(y) is not None and 1 << intc(y) == k:
        return x
    return None


def bits_of(t, pred):
    """8 * len(x) with pred(x)"""
    x = times(t, 8)
    z = length_of(x) if x is not None else None
    return z is not None and pred(strip_text(z))


def be64(t, pred):
    """64 bit big endian encoding of a number satisfying pred"""
    x = from_int(t)
    if x is not None and x[1] == 8:
        return pred(x[0])
    if t.op == "call" and ext_is(t.args[0], "struct.pack") and \
            len(t.args[1]) == 2 and const_in(
                t.args[1][0], ("!Q", ">Q", b"!Q", b">Q")):
        return pred(t.args[1][1])
    return False


def be128(t, p1, p2):
    """128 bit block of two 64 bit numbers, as an integer"""
    if t.op == "bin" and t.args[0] in ("|", "+", "^"):
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            hi = times(x, 1 << 64)
            if hi is not None and p1(hi) and p2(y):
                return True
            if x.op == "bin" and x.args[0] == "<<" and \
                    intc(x.args[2]) == 64 and p1(x.args[1]) and p2(y):
                return True
    b = to_int(t)
    if b is not None:
        t = b
    if t.op == "cat" and len(t.args) == 2:
        return be64(t.args[0], p1) and be64(t.args[1], p2)
    if t.op == "call" and ext_is(t.args[0], "struct.pack") and \
            len(t.args[1]) == 3 and const_in(t.args[1][0], ("!QQ", ">QQ")):
        return p1(t.args[1][1]) and p2(t.args[1][2])
    return False


def flat_cat(ts):
    out = []
    for t in ts:
        if t.op == "cat":
            out.extend(flat_cat(t.args))
        elif t.op == "bin" and t.args[0] == "+":
            out.extend(flat_cat(t.args[1:]))
        else:
            r, n = method_of(t)
            if n == "join" and is_const(r) and not cval(r) and t.args[1] and \
                    t.args[1][0].op in ("tuple", "listv"):
                s = t.args[1][0]
                xs = s.args if s.op == "tuple" else s.args[0]
                out.extend(flat_cat(xs))
            elif is_const(t) and cval(t) in (b"", ""):
                pass
            else:
                out.append(t)
    return out


def hmac_parts(t):
    """(key, digest, [pieces]) of the digest() of an HMAC"""
    r, n = method_of(t)
    if n == "digest" and not t.args[1]:
        data = []
        while r.op == "upd":
            data.insert(0, r.args[1])
            r = r.args[0]
        if r.op != "call" or not ext_is(
                r.args[0], "Cryptodome.Hash.HMAC.new", "hmac.new",
                "hmac.HMAC"):
            return None
        kw = dict(zip(("key", "msg", "digestmod"), r.args[1]))
        kw.update(r.args[2])
        if "msg" in kw:
            data.insert(0, kw["msg"])
        return kw.get("key"), kw.get("digestmod"), flat_cat(data)
    if t.op == "call" and ext_is(t.args[0], "hmac.digest") and \
            len(t.args[1]) == 3:
        k, m, d = t.args[1]
        return k, d, flat_cat([m])
    return None


def head(t, n):
    """x if t is x[:n]"""
    if t.op == "slice" and (t.args[1] is NONE or intc(t.args[1]) == 0) and \
            intc(t.args[2]) == n and t.args[3] is NONE:
        return t.args[0]
    return None


def tail(t, n):
    """x if t is x[n:]"""
    if t.op == "slice" and intc(t.args[1]) == n and t.args[2] is NONE and \
            t.args[3] is NONE:
        return t.args[0]
    return None


class Ops(object):
    """the operands of the authenticated encryption: predicates"""

    def __init__(self, aad, iv, ct):
        self.aad = aad
        self.iv = iv
        self.ct = ct
        self.empty = False      # known to have no ciphertext


RECEIVED = Ops(is_aad, is_dec(2), is_dec(3))


def cbc_tag(t, enc, cek, ops):
    """the tag of AES_CBC_HMAC_SHA2 (RFC 7518, 5.2.2.1), step by step"""
    half, h = CBC[enc]
    d = head(t, half)
    if d is None:
        return False
    x = hmac_parts(d)
    if x is None:
        return False
    key, dg, pieces = x
    if key is None or head(key, half) is not cek:
        return False
    if dg is None or not is_digest_module(dg, h):
        return False
    if len(pieces) != 4:
        return False
    return ops.aad(pieces[0]) and ops.iv(pieces[1]) and \
        ops.ct(pieces[2]) and \
        be64(pieces[3], lambda u: bits_of(u, ops.aad))


def iv_text(t, fs, ops):
    """t is the initialisation vector, nothing lost on the way"""
    if ops.iv(t):
        return True
    x = from_int(t)
    if x is not None and x[1] == 12:
        y = to_int(x[0])
        return y is not None and ops.iv(y) and len_is(fs, ops.iv, 12)
    return False


def iv_int(t, fs, ops):
    y = to_int(t)
    return y is not None and ops.iv(y) and len_is(fs, ops.iv, 12)


def j0(t, fs, ops):
    """iv || 0^31 || 1"""
    if t.op == "cat" and len(t.args) == 2:
        return iv_text(t.args[0], fs, ops) and const_in(
            t.args[1], (b"\x00\x00\x00\x01",))
    x = from_int(t)
    if x is None or x[1] != 16:
        return False
    x = x[0]
    if x.op == "bin" and x.args[0] in ("|", "+", "^"):
        for u, v in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if intc(v) == 1:
                if u.op == "bin" and u.args[0] == "<<" and \
                        intc(u.args[2]) == 32:
                    return iv_int(u.args[1], fs, ops)
                z = times(u, 1 << 32)
                if z is not None:
                    return iv_int(z, fs, ops)
    return False


def aes_block(t, cek):
    """the block AES(cek) in ECB mode encrypts, for a bytes term t"""
    r, n = method_of(t)
    if n != "encrypt" or len(t.args[1]) != 1:
        return None
    if not aes_object(r, cek, "MODE_ECB"):
        return None
    return t.args[1][0]


def aes_object(r, cek, mode):
    if r.op == "fresh":
        r = r.args[0]
    if r.op != "call" or not ext_is(r.args[0], "Cryptodome.Cipher.AES.new"):
        return False
    a = call_args(r, ("key", "mode", "iv"))
    return same_bytes(a.get("key"), cek) and \
        ext_is(a.get("mode", NONE), "Cryptodome.Cipher.AES." + mode)


def same_bytes(k, cek):
    if k is cek:
        return True
    return k is not None and k.op == "call" and k.args[0].op == "builtin" \
        and k.args[0].args[0] in ("bytes", "bytearray") and \
        len(k.args[1]) == 1 and k.args[1][0] is cek


def pad16(t, pred):
    """zero octets up to a multiple of 16 after something"""
    if t.op != "repeat" or not const_in(t.args[0], (b"\x00",)):
        return False
    n = t.args[1]
    if n.op == "bin" and n.args[0] == "-" and intc(n.args[1]) == 16:
        m = n.args[2]
        return rem16(m, pred)
    if n.op == "bin" and n.args[0] == "%" and intc(n.args[2]) == 16:
        m = n.args[1]
        if m.op == "un" and m.args[0] == "USub":
            z = length_of(m.args[1])
            return z is not None and pred(strip_text(z))
        if m.op == "bin" and m.args[0] == "-" and intc(m.args[1]) == 16:
            return rem16(m.args[2], pred)
    return False


def rem16(m, pred):
    if m.op == "bin" and m.args[0] == "%" and intc(m.args[2]) == 16:
        z = length_of(m.args[1])
        return z is not None and pred(strip_text(z))
    if m.op == "bin" and m.args[0] == "&" and 15 in (
            intc(m.args[2]), intc(m.args[1])):
        z = length_of(m.args[1]) or length_of(m.args[2])
        return z is not None and pred(strip_text(z))
    return False


def aligned(fs, pred):
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] == "eq":
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if intc(y) == 0 and rem16(x, pred):
                    return True
        if a.op == "truthy" and not p and rem16(a.args[0], pred):
            return True
    return False


def unslice(t):
    """base[a:a+16] block reads"""
    return t.args[0] if t.op == "slice" else None


def ghash_data(t, fs, ops):
    """t is aad || pad || ciphertext || pad"""
    ps = flat_cat([t])
    i = 0
    for pred in (ops.aad, ops.ct):
        if i < len(ps) and pred(ps[i]):
            i += 1
        elif not (pred is ops.ct and empty_ct(fs, ops)):
            return False
        if i < len(ps) and pad16(ps[i], pred):
            i += 1
        elif not aligned(fs, pred) and not (
                pred is ops.ct and empty_ct(fs, ops)):
            return False
    return i == len(ps)


def empty_ct(fs, ops):
    if ops.empty:
        return True
    for a, p in fs:
        if a.op == "cmp" and a.args[0] == "lt" and not p and \
                intc(a.args[1]) == 0:
            z = length_of(a.args[2])
            if z is not None and ops.ct(strip_text(z)):
                return True
        if a.op == "truthy" and not p:
            z = length_of(a.args[0]) or a.args[0]
            if ops.ct(strip_text(z)):
                return True
    return len_is(fs, ops.ct, 0)


def all_blocks(t, d):
    """the iteration reading slices of d in t reaches every block of d: no
    range() over its length with an offset or a shortened bound"""
    for u in subterms(t):
        if u.op == "elem" and u.args[1].op == "call" and \
                u.args[1].args[0].op == "builtin" and \
                u.args[1].args[0].args[0] == "range":
            a = u.args[1].args[1]
            if not any(length_of(x) is d for y in a for x in subterms(y)):
                continue
            lo = C(0)
            step = C(1)
            if len(a) == 1:
                hi = a[0]
            elif len(a) == 2:
                lo, hi = a
            else:
                lo, hi, step = a
            if intc(lo) != 0:
                return False
            while hi.op == "call" and hi.args[0].op == "builtin" and \
                    hi.args[0].args[0] == "int" and hi.args[1]:
                hi = hi.args[1][0]
            if intc(step) == 16:
                if length_of(hi) is not d:
                    return False
            elif intc(step) == 1:
                if hi.op != "bin" or hi.args[0] not in ("/", "//", ">>"):
                    return False
                if length_of(hi.args[1]) is not d or intc(hi.args[2]) != (
                        4 if hi.args[0] == ">>" else 16):
                    return False
            else:
                return False
    return True


def ghash(t, fs, cek, ops):
    """does the integer t authenticate aad, ciphertext and their lengths
    under the hash key of cek?"""
    if t.op not in ("mu", "call", "bin", "item"):
        return False
    ss = subterms(t)
    hk = lens = data = False
    for u in ss:
        if not hk:
            b = aes_block(u, cek)
            if b is not None and const_in(b, (ZERO16,)):
                hk = True
        if not lens and u.op in ("bin", "call", "cat") and be128(
                u, lambda x: bits_of(x, ops.aad),
                lambda x: bits_of(x, ops.ct) or (
                    ops.empty and intc(x) == 0)):
            lens = True
        if not lens and ops.empty and u.op == "bin":
            x = times(u, 1 << 64)
            if x is not None and bits_of(x, ops.aad):
                lens = True
        if not data and u.op == "slice" and ghash_data(u.args[0], fs, ops):
            data = all_blocks(t, u.args[0])
    return hk and lens and data


def gcm_tag_int(x, fs, cek, ops):
    if x.op != "bin" or x.args[0] != "^":
        return False
    for u, v in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
        b = to_int(v)
        if b is None:
            continue
        b = aes_block(b, cek)
        if b is not None and j0(b, fs, ops):
            return ghash(u, fs, cek, ops)
    return False


def gcm_tag(t, fs, cek, ops):
    """the 16 octet GCM tag, for a bytes term"""
    x = from_int(t)
    return x is not None and x[1] == 16 and gcm_tag_int(x[0], fs, cek, ops)


def authenticated(fs, enc, cek, plain=True):
    """the facts say that the received tag is the right one under cek"""
    if not plain and early(
            fs, lambda t: enc in CBC and cbc_tag(t, enc, cek, RECEIVED) or
            enc not in CBC and (gcm_tag(t, fs, cek, RECEIVED) or
                                gcm_tag_int(t, fs, cek, RECEIVED)),
            lambda t: dec(t) == 4 or to_int(t) is not None and
            dec(to_int(t)) == 4):
        return False
    if enc in CBC:
        return bytes_equal(
            fs, lambda t: cbc_tag(t, enc, cek, RECEIVED), is_dec(4), plain)
    full = len_is(fs, is_dec(4), 16)

    def received(t):
        if dec(t) == 4:
            return True
        x = from_int(t)
        if x is not None and x[1] == 16:
            y = to_int(x[0])
            return full and y is not None and dec(y) == 4
        return False
    if bytes_equal(fs, lambda t: gcm_tag(t, fs, cek, RECEIVED), received,
                   plain):
        return True
    if not full or not plain:
        return False

    def rint(t):
        y = to_int(t)
        return y is not None and dec(y) == 4
    return eq_any(fs, lambda t: gcm_tag_int(t, fs, cek, RECEIVED), rint)


# -- the plaintext -----------------------------------------------------------
def zlib_arg(t):
    if t.op == "call" and ext_is(t.args[0], "zlib.decompress") and t.args[1]:
        return t.args[1][0]
    r, n = method_of(t)
    if n == "decompress" and t.args[1] and r.op == "call" and \
            ext_is(r.args[0], "zlib.decompressobj"):
        return t.args[1][0]
    return None


def decryptions(t, seen=None):
    """the AES decryptions (or constants) a released value is made of"""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    t = strip_text(t)
    if t.op == "alt":
        return [y for x in t.args[0] for y in decryptions(x, seen)]
    z = zlib_arg(t)
    if z is not None:
        return decryptions(z, seen)
    if t.op == "slice":
        return decryptions(t.args[0], seen)
    return [t]


def ctr_ok(fs, c, ops):
    if c is None or c.op not in ("call", "fresh"):
        return False
    if c.op == "fresh":
        c = c.args[0]
    if not ext_is(c.args[0], "Cryptodome.Util.Counter.new"):
        return False
    a = call_args(c, ("nbits", "prefix", "suffix", "initial_value"))
    return intc(a.get("nbits", NONE)) == 32 and \
        iv_text(a.get("prefix", NONE), fs, ops) and \
        "suffix" not in a and intc(a.get("initial_value", NONE)) == 2


def aes_of(t, meth):
    """(args of AES.new, data) of AES.new(...).meth(data)"""
    r, n = method_of(t)
    if n != meth or len(t.args[1]) != 1:
        return None
    if r.op == "fresh":
        r = r.args[0]
    if r.op != "call" or not ext_is(r.args[0], "Cryptodome.Cipher.AES.new"):
        return None
    return call_args(r, ("key", "mode", "iv")), t.args[1][0]


def cek_of_decryption(t, enc):
    """the content encryption key t was decrypted with"""
    x = aes_of(t, "decrypt")
    if x is None:
        return None
    k = x[0].get("key")
    if k is not None and enc in CBC:
        return tail(k, CBC[enc][0])
    if k is not None and k.op == "call" and k.args[0].op == "builtin" and \
            k.args[0].args[0] in ("bytes", "bytearray") and k.args[1]:
        return k.args[1][0]
    return k


def pt_ok(t, fs, enc):
    """t is the decryption of the received ciphertext under received iv"""
    a, data = aes_of(t, "decrypt")
    mode = a.get("mode", NONE)
    if enc in CBC:
        return ext_is(mode, "Cryptodome.Cipher.AES.MODE_CBC") and \
            RECEIVED.iv(a.get("iv", a.get("IV", NONE))) and \
            RECEIVED.ct(data)
    if not ext_is(mode, "Cryptodome.Cipher.AES.MODE_CTR"):
        return False
    ps = flat_cat([data])
    if not ps or not RECEIVED.ct(ps[0]) or len(ps) > 2 or (
            len(ps) == 2 and not pad16(ps[1], RECEIVED.ct)):
        return False
    if "counter" in a:
        return ctr_ok(fs, a["counter"], RECEIVED)
    iv = a.get("initial_value", NONE)
    return "nonce" in a and iv_text(a["nonce"], fs, RECEIVED) and \
        intc(iv) == 2


def aes_keys(fs):
    """candidate content encryption keys mentioned by the facts"""
    out = set()
    for f in fs:
        for a in flat_atoms(f):
            for u in subterms(a):
                if u.op == "call" and ext_is(
                        u.args[0], "Cryptodome.Cipher.AES.new",
                        "Cryptodome.Hash.HMAC.new", "hmac.new"):
                    k = call_args(u, ("key",)).get("key")
                    if k is not None:
                        out.add(k)
                        if k.op == "slice":
                            out.add(k.args[0])
    return out


def rel_tok(a):
    """facts about the token's iv, ciphertext or tag, or keys derived from
    its encrypted key"""
    r = _memo.get(("rel", a))
    if r is None:
        r = _memo[("rel", a)] = any(
            dec(u) in (1, 2, 3, 4) or _tok.part(u) == 0 or
            u is param("cek") for u in subterms(a)
            if u.op in ("call", "item", "param"))
    return r


def auth_rel(ceks):
    """relevant to authenticated(): comparisons involving the tag, lengths"""
    def rel(a):
        k = ("arel", a)
        r = _memo.get(k)
        if r is None:
            r = False
            if a.op in ("truthy", "cmp", "forall"):
                ss = subterms(a)
                if any(dec(u) == 4 for u in ss if u.op == "call"):
                    r = True
                elif a.op == "cmp" or a.op == "truthy":
                    r = any(length_of(u) is not None for u in ss) and \
                        rel_tok(a)
            _memo[k] = r
        return r
    return rel


# -- runs ----------------------------------------------------------------------
def header_terms(r, name):
    out = set()
    seen = set()

    def facts():
        for e in r.events:
            for f in e.facts:
                yield f
        for st, v in r.res:
            for f in st.facts:
                yield f
    for f in facts():
        for a in flat_atoms(f):
            if a in seen:
                continue
            seen.add(a)
            for u in subterms(a):
                if u.op in ("item", "call") and _tok.header(u, name):
                    out.add(u)
    return out


def base_assume(text):
    return [(isinst(param("token"), "str"), text),
            (T("truthy", param("token")), True),
            (T("isinst", param("token"), T("class", "jwkest.jwe.JWEnc")),
             False)]


def jwe_interp(W, opt=False, extra=(), noopaque=(), names=0):
    return W.interp((KEYCLASSES | set(JWE_OPAQUE) | set(extra)) -
                    set(noopaque), optimize=opt, noopaque=noopaque,
                    names=names)


def decrypt_run(W, cls, params, alg, enc, text, opt, assume=(), extra=(),
                noopaque=(), marker=None):
    """decrypt() for tokens of one algorithm pair"""
    W.key_attrs()
    pins = W._cache.setdefault("jwe-pins", {})
    q = "jwkest.jwe." + cls
    if "alg" not in pins:
        g = run(jwe_interp(W), "jwkest.jwe.JWE_RSA", "decrypt",
                ["token", "key"], assume=base_assume(True))
        pins["alg"] = header_terms(g, "alg")
        pins["enc"] = header_terms(g, "enc")
        if not pins["alg"] or not pins["enc"]:
            raise AnalysisBroken("%s never looks at the alg and enc header "
                                 "parameters" % g.entry)
    for rnd in range(3):
        I = jwe_interp(W, opt, extra, noopaque)
        asm = base_assume(text)
        asm += [(mk_cmp("eq", t, C(alg)), True) for t in sorted(pins["alg"])]
        asm += [(mk_cmp("eq", t, C(enc)), True) for t in sorted(pins["enc"])]
        asm += list(assume)
        I.marker = marker
        try:
            r = run(I, q, "decrypt", params, "alg %s enc %s%s" % (
                alg, enc, ", -O" if opt else ""), assume=asm)
        finally:
            I.marker = None
        more = False
        for n in ("alg", "enc"):
            ts = header_terms(r, n)
            if ts - pins[n]:
                pins[n] = pins[n] | ts
                more = True
        if not more:
            break
    r.alg = alg
    r.enc = enc
    r.algterms = pins["alg"]
    r.encterms = pins["enc"]
    return r


def combos(tier):
    """(alg, enc, text, opt)"""
    out = []
    cs, gs = sorted(CBC), sorted(GCM)
    for i, alg in enumerate(ALGS):
        if tier == "thorough":
            for enc in ENCS:
                for opt in (False, True):
                    out.append((alg, enc, not opt, opt))
        else:
            out.append((alg, cs[i % 3], bool(i % 2), False))
            out.append((alg, gs[i % 3], not i % 2, bool((i // 2) % 2)))
    return out


def each_decrypt(W, rep, fn, direct=True, entry=True, extra=(),
                 noopaque=(), marker=None):
    W.key_attrs()
    jobs = []
    cs = combos(rep.tier)
    if entry:
        for alg, enc, text, opt in cs:
            def job(rp, alg=alg, enc=enc, text=text, opt=opt):
                r = decrypt_run(W, "JWE", ["token", "keys", "alg", "cek"],
                                alg, enc, text, opt, extra=extra,
                                noopaque=noopaque, marker=marker)
                rp.stat(r.I)
                fn(rp, r)
            jobs.append(job)
    if direct:
        for alg, enc, text, opt in cs:
            if alg.startswith("RSA"):
                cls = "JWE_RSA"
            elif alg.startswith("A"):
                cls = "JWE_SYM"
            else:
                continue

            def job2(rp, alg=alg, enc=enc, text=text, opt=opt, cls=cls):
                r = decrypt_run(W, cls, ["token", "key", "cek"], alg, enc,
                                text, opt, extra=extra, noopaque=noopaque)
                rp.stat(r.I)
                fn(rp, r)
            jobs.append(job2)
    parallel(rep, jobs)


# -- C10 ------------------------------------------------------------------------
def is_plain(u):
    """a decryption of the received ciphertext"""
    if u.op != "call":
        return False
    x = aes_of(u, "decrypt")
    return x is not None and any(dec(z) == 3 for z in subterms(x[1])
                                 if z.op == "call")


def released(rep, r, where, facts, v, what):
    ds = decryptions(v)
    ceks = set()
    for d in ds:
        if is_const(d) and cval(d) in (b"", ""):
            ceks |= aes_keys(facts)
            continue
        c = cek_of_decryption(d, r.enc)
        if c is None:
            rep.ob("plaintext-from-ciphertext", where, False, what,
                   "[%s] released value is not a decryption of the received "
                   "ciphertext: %s" % (r.variant, show(d, 4)[:160]))
            return
        ceks.add(c)
        rep.ob("plaintext-from-ciphertext", where, entails(
            facts, lambda fs: pt_ok(d, fs, r.enc), auth_rel(ceks)), what,
            "[%s] decrypts something else than the received ciphertext "
            "under the received initialisation vector: %s" % (
                r.variant, show(d, 5)[:200]))
    rep.ob("authenticated-before-release", where, entails(
        facts, lambda fs: any(authenticated(fs, r.enc, c) for c in ceks),
        auth_rel(ceks)), what,
        "[%s] plaintext is released on a path on which the authentication "
        "tag over the received header, iv and ciphertext was not found "
        "right" % r.variant)


def c10(W, rep):
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        n = 0
        for st, v in r.values():
            n += 1
            for x in alts_of(v):
                if x is NONE:
                    continue
            released(rep, r, where, st.facts, v, "returned plaintext")
        rep.ob("can-decrypt", where, n > 0, "alg %s enc %s" % (r.alg, r.enc),
               "no normal exit")
        for e in r.events:
            if e.kind not in ("setattr", "setitem"):
                continue
            val = e.data[-1]
            if any(is_plain(u) for u in subterms(val)):
                released(rep, r, pos(W, e), e.facts, val, "stored plaintext")
        for st, x in r.raised:
            x = r.I.freeze(st, x)
            ps = [u for u in subterms(x) if is_plain(u)]
            if ps:
                released(rep, r, where, st.facts, ps[0],
                         "plaintext in an exception")
    each_decrypt(W, rep, check)


# -- C16 ------------------------------------------------------------------------
def ceks_of(r, st, v):
    out = set()
    for d in decryptions(v):
        if is_const(d):
            continue
        c = cek_of_decryption(d, r.enc)
        if c is not None:
            out.add(c)
    return out


def c16(W, rep):
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        n = CEKLEN[r.enc]
        for st, v in r.values():
            # the key of every cipher and MAC object made on the way
            ceks = ceks_of(r, st, v)
            rep.ob("cek-size", where, entails(
                st.facts, lambda fs: any(
                    known_len(c) == n or len_is(fs, lambda t: t is c, n)
                    for c in ceks | aes_keys(fs)), len_rel),
                "enc %s" % r.enc,
                "[%s] a content encryption key whose length is not known to "
                "be %d octets is used" % (r.variant, n))
            for c in ceks:
                # no other length on any path
                bad = known_len(c) not in (None, n) or any(
                    p and a.op == "cmp" and a.args[0] == "eq" and any(
                    length_of(x) is c and intc(y) not in (None, n)
                    for x, y in ((a.args[1], a.args[2]),
                                 (a.args[2], a.args[1])))
                    for f in st.facts for a in flat_atoms(f)
                    for p in (True,) if (a, True) in st.facts)
                rep.ob("cek-size", where, not bad, "enc %s" % r.enc,
                       "[%s] another key length is accepted" % r.variant)
    each_decrypt(W, rep, check)


def len_rel(a):
    return a.op == "cmp" and a.args[0] == "eq" and any(
        length_of(x) is not None for x in a.args[1:])


# -- key management ---------------------------------------------------------------
KW = "jwkest.aes_key_wrap.aes_unwrap_key"
WRAP = "jwkest.aes_key_wrap.aes_wrap_key"
KDF = "jwkest.extra.ecdh_derive_key"
KTY = {"R": "RSA", "A": "oct", "E": "EC"}
SHA1_NAMES = ("SHA", "SHA1")


def key_material(t):
    """the key object some key material was taken from"""
    t = strip_text(t)
    if t.op == "attr" and t.args[1] == "key":
        t = t.args[0]
    r, n = method_of(t)
    if n == "encryption_key":
        return r
    q = callee(t)
    if q is not None and q.endswith(".encryption_key") and t.args[1]:
        return t.args[1][0]
    if q is not None and q.endswith(".intarr2str") and t.args[1]:
        return key_material(t.args[1][0])
    return t


def rsa_op(t, alg, meth):
    """(key, args) if t is the RSA operation `alg` prescribes"""
    r, n = method_of(t)
    if n != meth or r.op not in ("call", "fresh"):
        return None
    if r.op == "fresh":
        r = r.args[0]
    a = call_args(r, ("key", "hashAlgo", "mgfunc", "label"))
    if alg == "RSA1_5":
        if not ext_is(r.args[0], "Cryptodome.Cipher.PKCS1_v1_5.new"):
            return None
    else:
        if not ext_is(r.args[0], "Cryptodome.Cipher.PKCS1_OAEP.new"):
            return None
        h = a.get("hashAlgo", NONE)
        if "mgfunc" in a or (
                "label" in a and not (is_const(a["label"]) and
                                      not cval(a["label"]))):
            return None
        if alg == "RSA-OAEP":
            if h is not NONE and not any(is_digest_module(h, x)
                                         for x in SHA1_NAMES):
                return None
        elif not is_digest_module(h, "SHA256"):
            return None
    return a.get("key", NONE), (t if t.op == "call" else t.args[0]).args[1]


def epk_key(t):
    """the header whose epk the key object t was made from"""
    if t.op == "fresh":
        t = t.args[0]
    if callee(t) != "jwkest.jwk.ECKey":
        return None
    for x in list(t.args[1]) + [v for k, v in t.args[2]]:
        y = x
        if y.op in ("star", "kwstar"):
            y = y.args[0]
        if _tok.header(y, "epk"):
            return y
    return None


def party(t, name):
    """decoded apu/apv of the header, or the empty string"""
    if is_const(t) and cval(t) in (b"", ""):
        return True
    t = strip_text(t)
    if callee(t) in ("jwkest.b64d", "jwkest.b64d_enc_dec") and t.args[1]:
        return _tok.header(strip_text(t.args[1][0]), name)
    return False


KDFARGS = ("curve", "key", "epk", "apu", "apv", "alg", "dk_len")


def no_party(fs, name):
    """the header has no such member, or an empty one"""
    from .jws import not_in, falsy_any
    return not_in(fs, name, _tok.headers) or falsy_any(
        fs, lambda t: _tok.header(strip_text(t), name) or
        _tok.header(t, name))


def kdf_ok(t, alg, enc):
    """(own private key term, ephemeral key term) of a key agreed upon the
    way `alg` prescribes, else None"""
    if callee(t) != KDF:
        return None
    a = call_args(t, ("curve", "key", "epk", "apu", "apv", "alg", "dk_len"))
    if len(a) != 7:
        return None
    if alg == "ECDH-ES":
        name, bits = enc, CEKLEN[enc] * 8
    else:
        name = alg.split("+")[1]
        bits = int(name[1:4])
    if not const_in(strip_text(a["alg"]), (name, name.encode())) or \
            intc(a["dk_len"]) != bits:
        return None
    if not party(a["apu"], "apu") or not party(a["apv"], "apv"):
        return None
    c = a["curve"]
    e = a["epk"]
    if c.op != "attr" or c.args[1] != "curve" or e.op != "tuple" or \
            len(e.args) != 2:
        return None
    if e.args[0].op != "attr" or e.args[0].args[1] != "x":
        return None
    pk = e.args[0].args[0]
    if e.args[1] is not T("attr", pk, "y") or epk_key(pk) is None:
        return None
    d = a["key"]
    if d.op != "attr" or d.args[1] != "d":
        return None
    # both keys are on the same curve (C20), so either may name it
    if c.args[0] is not pk and c.args[0] is not d.args[0]:
        return None
    return d.args[0], pk


def cek_source(c, alg, enc):
    """the key object the content encryption key was recovered with;
    the caller's cek; None if it is neither"""
    x = from_int(c)
    if x is not None:
        c = x[0]
    c = strip_text(c)
    if c is param("cek"):
        return c
    if alg.startswith("RSA"):
        if c.op == "slice" and alg == "RSA1_5":
            c = c.args[0]
        x = rsa_op(c, alg, "decrypt")
        if x is None or not x[1] or dec(x[1][0]) != 1:
            return None
        return key_material(x[0])
    if alg.startswith("A"):
        if callee(c) != KW or len(c.args[1]) != 2 or c.args[2] or \
                dec(c.args[1][1]) != 1:
            return None
        return key_material(c.args[1][0])
    if alg == "ECDH-ES":
        x = kdf_ok(c, alg, enc)
        return None if x is None else x[0]
    if callee(c) != KW or len(c.args[1]) != 2 or c.args[2] or \
            dec(c.args[1][1]) != 1:
        return None
    x = kdf_ok(c.args[1][0], alg, enc)
    return None if x is None else x[0]


def sentinel_refused(fs, c):
    """RSA1_5: what comes back is not the stand-in for a padding error"""
    x = c.args[0] if c.op == "slice" else c
    r, n = method_of(x)
    if n != "decrypt" or len(x.args[1]) < 2:
        return False
    s = x.args[1][1]
    if c.op == "slice":
        # with digest: it ends in its own hash
        for a, p in fs:
            t = strip_cmp_true(a, p)
            if t is not None and t.op == "call" and ext_is(
                    t.args[0], "hmac.compare_digest",
                    "secrets.compare_digest"):
                return True
        return False
    for a, p in fs:
        if not p and a.op == "cmp" and a.args[0] == "eq" and \
                x in a.args[1:] and s in a.args[1:]:
            return True
        if not p and a.op == "truthy" and a.args[0].op == "call" and ext_is(
                a.args[0].args[0], "hmac.compare_digest",
                "secrets.compare_digest") and \
                x in a.args[0].args[1] and s in a.args[0].args[1]:
            return True
    return False


def c29(W, rep):
    """algorithms named in the header are the ones applied"""
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        for st, v in r.values():
            for d in decryptions(v):
                if is_const(d):
                    continue
                c = cek_of_decryption(d, r.enc)
                rep.ob("content-encryption", where, c is not None,
                       "enc %s" % r.enc,
                       "[%s] not decrypted the way enc says: %s" % (
                           r.variant, show(d, 4)[:150]))
                if c is None:
                    continue
                s = cek_source(c, r.alg, r.enc)
                rep.ob("key-management", where, s is not None,
                       "alg %s" % r.alg,
                       "[%s] the content encryption key does not come from "
                       "the received encrypted key the way alg says: %s" % (
                           r.variant, show(c, 5)[:220]))
                if s is None or s is param("cek"):
                    continue
                if r.alg == "RSA1_5":
                    x = from_int(c)
                    c = x[0] if x is not None else c
                    rep.ob("rsa1_5-padding-error", where, entails(
                        st.facts, lambda fs: sentinel_refused(fs, c) or
                        not any_uses(fs, c), sentinel_rel),
                        "alg %s" % r.alg, "[%s] the random stand-in for a "
                        "padding error is used as a key" % r.variant)
        for e in r.events:
            if not r.alg.startswith("ECDH") or e.kind != "call" or \
                    callee(e.data[3]) != KDF:
                continue
            a = call_args(e.data[3], KDFARGS)
            for n in ("apu", "apv"):
                v = a.get(n)
                if v is None or not is_const(v):
                    continue
                rep.ob("party-info", pos(W, e), entails(
                    e.facts, lambda fs: no_party(fs, n),
                    lambda a: any(const_in(u, (n,)) for u in subterms(a))),
                    n, "[%s] the header's %s is left out of the key "
                    "derivation" % (r.variant, n))
        expected_alg(rep, r, where)
    each_decrypt(W, rep, check)


def any_uses(fs, c):
    """do the facts concern key c at all (on this path)?"""
    return any(c in subterms(a) for a, p in fs if a.op in ("cmp", "truthy"))


def sentinel_rel(a):
    return a.op in ("cmp", "truthy") and any(
        u.op == "call" and method_of(u)[1] == "decrypt" for u in subterms(a))


def expected_alg(rep, r, where):
    """with an expected algorithm given the header names that one"""
    if not r.entry.endswith("JWE.decrypt"):
        return
    isalg = lambda t: t in r.algterms or const_in(t, (r.alg,))
    al = param("alg")
    for st, v in r.res:
        rep.ob("expected-algorithm", where, entails(
            st.facts, lambda fs: eq_any(fs, lambda t: t is al, isalg) or
            any(a.op == "truthy" and not p and a.args[0] is al
                for a, p in fs) or any(
                a.op == "cmp" and p and a.args[0] in ("is", "eq") and
                al in a.args[1:] and NONE in a.args[1:] for a, p in fs),
            lambda a: al in subterms(a)), "alg %s" % r.alg,
            "[%s] returns although the caller expects another algorithm" %
            r.variant)


# -- keys used for decryption -----------------------------------------------------
def key_events(r):
    """(event, key object) for each use of a candidate key"""
    for e in r.events:
        if e.kind != "call":
            continue
        t = e.data[3]
        if t.op == "fresh":
            t = t.args[0]
        q = callee(t)
        if q == KW and t.args[1] and callee(t.args[1][0]) != KDF:
            yield e, key_material(t.args[1][0])
        elif q == KDF and len(t.args[1]) > 1:
            k = t.args[1][1]
            yield e, k.args[0] if k.op == "attr" else k
        else:
            r_, n = method_of(t)
            if n == "decrypt" and r_.op in ("call", "fresh") and ext_is(
                    (r_ if r_.op == "call" else r_.args[0]).args[0],
                    "Cryptodome.Cipher.PKCS1_v1_5.new",
                    "Cryptodome.Cipher.PKCS1_OAEP.new"):
                c = r_ if r_.op == "call" else r_.args[0]
                k = call_args(c, ("key",)).get("key")
                if k is not None:
                    yield e, key_material(k)


def c30(W, rep):
    from .jws import key_obs, falsy
    def check(rep, r):
        isalg = lambda t: t in r.algterms or const_in(t, (r.alg,))
        for e, kk in key_events(r):
            for k in alts_of(kk):
                key_obs(W, rep, r, e, k, KTY[r.alg[0]], None, isalg,
                        "decrypting", use=("enc",))
                mine = any(u is param("keys") for u in subterms(k))
                rep.ob("only-given-keys", pos(W, e), mine or entails(
                    e.facts, lambda fs: falsy(fs, param("keys")),
                    lambda a: param("keys") in subterms(a)), "decrypting",
                    "[%s] a key is used that is not among those the caller "
                    "gave: %s" % (r.variant, show(k, 4)[:120]))
    each_decrypt(W, rep, check, direct=False)


# -- C20 ----------------------------------------------------------------------------
def same_curve(fs, k, pk):
    """the facts say both keys are on the same curve"""
    def cv(x, *names):
        out = [T("attr", x, "curve")]
        out += [T("attr", out[0], n) for n in names]
        return out + [T("attr", x, "crv")]
    for a, b in zip(cv(k, "bits", "curve_name", "p"),
                    cv(pk, "bits", "curve_name", "p")):
        if eq_any(fs, lambda t: t is a, lambda t: t is b):
            return True
        # names compared in some normalised form
        if eq_any(fs, lambda t: method_of(t)[0] is a,
                  lambda t: method_of(t)[0] is b):
            return True
    return False


def c20(W, rep):
    def check(rep, r):
        if not r.alg.startswith("ECDH"):
            return
        for e in r.events:
            if e.kind != "call" or callee(e.data[3]) != KDF:
                continue
            x = kdf_ok(e.data[3], r.alg, r.enc)
            rep.ob("agreement-operands", pos(W, e), x is not None,
                   "key agreement", "[%s] curve, private key and public "
                   "point are not those of the ephemeral and the recipient's "
                   "key: %s" % (r.variant, show(e.data[3], 4)[:200]))
            if x is None:
                continue
            k, pk = x
            rep.ob("same-curve", pos(W, e), entails(
                e.facts, lambda fs: same_curve(fs, k, pk),
                lambda a: pk in subterms(a)), "key agreement",
                "[%s] the ephemeral key is not known to be on the curve of "
                "the recipient's key" % r.variant)
        if r.alg == "ECDH-ES":
            where = where_end(r).split(" (")[0]
            for st, v in r.res:
                rep.ob("no-encrypted-key", where, entails(
                    st.facts, no_jek, lambda a: any(
                        dec(u) == 1 or _tok.part(u) == 1
                        for u in subterms(a) if u.op in ("call", "item"))),
                    "alg ECDH-ES", "[%s] an encrypted key next to direct "
                    "agreement is ignored" % r.variant)
    # one content encryption per algorithm suffices
    each_decrypt(W, rep, check, direct=False)
    c20_kernel(W, rep)


def no_jek(fs):
    for a, p in fs:
        if a.op == "truthy" and not p:
            z = length_of(a.args[0]) or a.args[0]
            if dec(z) == 1 or _tok.part(z) == 1:
                return True
        if a.op == "cmp" and p and a.args[0] == "eq":
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if is_const(y) and not cval(y):
                    z = length_of(x) or x
                    if dec(z) == 1 or _tok.part(z) == 1:
                        return True
    return False


def coords(t, pub):
    """0 / 1 if t is a coordinate of the point pub"""
    if t.op == "item" and t.args[0] is pub:
        return intc(t.args[1])
    return None


def on_curve(fs, pub):
    """the facts say that the curve equation holds for pub"""
    for a, p in fs:
        t = strip_cmp_true(a, p)
        if t is not None and callee(t) == "jwkest.elliptic.element" and \
                t.args[1]:
            x = t.args[1][0]
            if x is pub or (x.op == "tuple" and len(x.args) == 2 and
                            [coords(y, pub) for y in x.args] == [0, 1]):
                return True
        if a.op == "cmp" and p and a.args[0] == "eq":
            # the equation itself, written out
            us = [subterms(x) for x in a.args[1:]]
            for u, v in (us, us[::-1]):
                if any(coords(z, pub) == 1 for z in u) and \
                        any(coords(z, pub) == 0 for z in v) and \
                        any(z.op == "attr" and z.args[1] == "b" or
                            z is param("self.b") for z in v):
                    return True
    return False


def c20_kernel(W, rep):
    """the shared secret is computed for points of the curve only"""
    pub = param("pub")
    n = 0
    I = W.interp((), optimize=True)
    r = run(I, "jwkest.ecc.NISTEllipticCurve", "dh_z", ["priv", "pub"])
    for st, v in r.values():
        n += 1
        rep.ob("point-on-curve", r.entry, entails(
            st.facts, lambda fs: on_curve(fs, pub)), "shared secret",
            "computed for a point that was not found to be on the curve")
        ms = [u for u in subterms(v) if callee(u) == "jwkest.elliptic.mulp"]
        rep.ob("shared-secret", r.entry, bool(ms) and all(
            param("priv") in subterms(u) and pub in subterms(u)
            for u in ms), "shared secret",
            "not a multiple of the peer's point: %s" % show(v, 4)[:150])
    rep.ob("point-on-curve", r.entry, n > 0, "some normal exit")
    rep.stat(I)
    # the point handed to dh_z is the one the derivation was asked for
    I = W.interp(("jwkest.extra.concat_sha256",))
    names = ["curve", "key", "epk", "apu", "apv", "alg", "dk_len"]
    r = run(I, None, KDF, names)
    for st, v in r.values():
        zs = [u for u in subterms(v) if u.op == "call" and
              method_of(u)[1] in ("dh_z",)]
        rep.ob("derivation-input", r.entry, bool(zs) and all(
            method_of(u)[0] is param("curve") and
            list(u.args[1]) == [param("key"), param("epk")] for u in zs),
            "shared secret", "not derived from the validated secret: %s" %
            show(v, 4)[:150])
    rep.stat(I)


# -- C26 ----------------------------------------------------------------------------
def key_failures(ff):
    """which exception a failing key operation ends in"""
    if ff.op == "func" and ff.args[0] == KW:
        return "builtins.ValueError"
    if ff.op == "attr" and ff.args[1] in ("encryption_key",
                                          "decryption_key", "get_key"):
        # a key that lacks the material asked for
        return ("builtins.ValueError", "jwkest.jwk.DeSerializationNotPossible")
    if ff.op == "attr" and ff.args[1] == "decrypt" and \
            ff.args[0].op in ("call", "fresh"):
        c = ff.args[0] if ff.args[0].op == "call" else ff.args[0].args[0]
        if c.op == "call" and ext_is(
                c.args[0], "Cryptodome.Cipher.PKCS1_v1_5.new",
                "Cryptodome.Cipher.PKCS1_OAEP.new"):
            return "builtins.ValueError"
    return None


def exc_heads(x):
    return [y for y in alts_of(x) if y.op == "exc"]


def tag_refused(fs):
    for a, p in fs:
        if not p and a.op in ("truthy", "cmp") and any(
                dec(u) == 4 for u in subterms(a) if u.op == "call") and (
                a.op == "cmp" and a.args[0] == "eq" and
                length_of(a.args[1]) is None and length_of(a.args[2]) is None
                or a.op == "truthy" and a.args[0].op == "call" and
                a.args[0].args[0].op == "ext"):
            return True
    return False


def c26(W, rep):
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        # exceptions that mean: not with this key
        bad = set()
        own_raise = set()
        for e in r.events:
            if e.kind == "raise":
                if len(e.stack) <= 1 and not e.loops:
                    own_raise.update(exc_heads(e.data[0]))
                elif tag_refused(e.facts):
                    bad.update(exc_heads(e.data[0]))
        for e in r.events:
            if e.kind == "handled":
                for x in exc_heads(e.data[0]):
                    if any(u.op == "marker" for u in subterms(x)):
                        bad.add(x)
        for st, x in r.raised:
            for y in exc_heads(r.I.freeze(st, x)):
                if any(u.op == "marker" for u in subterms(y)):
                    bad.add(y)
        names = set(x.args[0] for x in bad)
        rep.ob("failures-seen", where, bool(bad), "alg %s" % r.alg,
               "no failing key operation was found")
        for st, x in r.raised:
            for y in exc_heads(r.I.freeze(st, x)):
                esc = y in bad or (
                    any(u.op == "marker" for u in subterms(y)))
                rep.ob("failure-stays-inside", where,
                       not esc or y in own_raise, "alg %s" % r.alg,
                       "[%s] a key that does not fit ends the search with "
                       "%s" % (r.variant, y.args[0]))
        for e in r.events:
            if e.kind != "handled":
                continue
            for x in exc_heads(e.data[0]):
                if x not in bad:
                    continue
                how = e.data[1]
                if how <= frozenset(["raise"]):
                    continue
                rep.ob("search-goes-on", pos(W, e), bool(e.loops) and not (
                    len(e.stack) <= 1 and how & {"brk", "ret"}) or
                    via_cek(e),
                    "alg %s" % r.alg,
                    "[%s] after a key that does not fit the remaining keys "
                    "are not tried" % r.variant)
        # giving up means having been through all keys
        for e in r.events:
            if e.kind == "raise" and len(e.stack) <= 1 and not e.loops:
                for x in exc_heads(e.data[0]):
                    if x.args[0].endswith("DecryptionFailed"):
                        rep.ob("gives-up-last", pos(W, e), entails(
                            e.facts, through_all), "alg %s" % r.alg,
                            "[%s] gives up before all keys were tried" %
                            r.variant)
    each_decrypt(W, rep, check, direct=False, marker=key_failures)


def via_cek(e):
    """the failure of the content encryption key the caller supplied"""
    return any(a.op == "truthy" and p and a.args[0] is param("cek")
               for a, p in e.facts) and not e.loops


def through_all(fs):
    for a, p in fs:
        if a.op == "forall" and p and cut(a.args[1]):
            return False
    for a, p in fs:
        if a.op == "forall" and p and whole(a.args[1]):
            return True
        if not p and a.op == "truthy" and whole(a.args[0]):
            return True
    return False


def cut(t):
    return any(u.op in ("slice", "item") and not whole(u) and
               any(v is param("keys") or own_keys(v) for v in subterms(u))
               for u in subterms(t))


def whole(t):
    """t holds the candidate keys, none of them cut off"""
    if t is param("keys") or own_keys(t):
        return True
    if t.op == "slice" or (t.op == "item" and intc(t.args[1]) is not None):
        return False
    return any(whole(u) for u in t.args if isinstance(u, T)) or any(
        whole(v) for u in t.args if isinstance(u, tuple)
        for v in u if isinstance(v, T))


def own_keys(u):
    return u is param("self._dict") or callee(u) == "jwkest.jwk.KEYS"


# -- C22, C17 -----------------------------------------------------------------------
def no_crit(fs, tok):
    from .jws import not_in, falsy_any
    return not_in(fs, "crit", tok.headers) or falsy_any(
        fs, lambda t: tok.header(t, "crit"))


def crit_rel(a):
    return any(const_in(u, ("crit",)) for u in subterms(a))


def parts_exact(fs, tok, n):
    for a, p in fs:
        if p and a.op == "cmp" and a.args[0] == "eq":
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if intc(y) == n:
                    z = length_of(x)
                    if z is not None and (
                            tok.splitcall(z) == ("split", None) or
                            z.op == "listv" and split_list(z, tok)):
                        return True
                    r, m = method_of(x)
                if intc(y) == n - 1:
                    r, m = method_of(x)
                    if m == "count" and tok.is_text(r) and x.args[1] and \
                            const_in(x.args[1][0], (b".", ".")):
                        return True
    return False


def split_list(z, tok):
    return False
