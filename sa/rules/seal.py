"""Rules about producing JSON Web Encryption tokens."""
from ..terms import T, C, NONE, is_const, cval, subterms, show
from ..query import entails, callee, method_of, alts_of, strip_text, call_args
from ..query import flat_atoms
from ..runs import run, isinst, param
from ..project import AnalysisBroken
from ..report import parallel
from ..values import mk_cmp, known_len
from .token import const_in, intc
from .jws import segments, encoded, empty_seg, header_get, where_end
from .jws import key_obs, falsy
from .kernels import ext_is, to_int, from_int, Kernel, CURVES, CURVE_OF
from .kernels import ec_point_call, is_base, leaf_values, nonce_of_r
from . import jwe, wrap
from .jwe import ALGS, CBC, GCM, ENCS, CEKLEN, KDF, WRAP, KTY
from .jwe import length_of, rem16, aligned, flat_cat

BYNAME = "jwkest.ecc.NISTEllipticCurve.by_name"
RANDOM = ("Cryptodome.Random.get_random_bytes", "os.urandom",
          "secrets.token_bytes")


GCMCLS = "jwkest.aes_gcm.AES_GCM"


OTHER = ("jku", "jwk", "x5u", "x5t", "x5c", "kid", "typ", "cty", "apu", "apv",
         "epk", "crit")


def header_params(alg, enc, zipped, full):
    """the header parameters of the object: the algorithms only, or every
    other one as well, with values that are not known"""
    mem = [(C("alg"), C(alg)), (C("enc"), C(enc))]
    asm = []
    if zipped:
        mem.append((C("zip"), C("DEF")))
    for n in OTHER if full else ():
        v = param("hdr." + n)
        mem.append((C(n), v))
        asm.append((T("truthy", v), True))
        if n not in ("jwk", "epk", "x5c", "crit"):
            asm.append((isinst(v, "str"), True))
        elif n == "jwk":
            asm += [(isinst(v, "str"), False), (isinst(v, "dict"), False)]
    return tuple(mem), asm


def encrypt_run(W, cls, alg, enc, given, opt, zipped=False, full=False,
                extra=()):
    """encrypt() of an object whose own header names the algorithm pair"""
    W.key_attrs()
    I = jwe.jwe_interp(W, opt, (BYNAME, GCMCLS) + tuple(extra),
                       names=16)   # header parameters are told apart
    key = "keys" if cls == "JWE" else "key"
    # the digest variant of RSA1_5 is not part of the standard
    asm = [(T("truthy", param("self.with_digest")), False)]
    if given:
        params = [key, "cek", "iv"]
        for n in ("cek", "iv"):
            asm += [(isinst(param(n), "bytes"), True),
                    (T("truthy", param(n)), True)]
    else:
        params = [key, ("cek", C("")), ("iv", C(""))]
    mem, more = header_params(alg, enc, zipped, full)
    r = run(I, "jwkest.jwe." + cls, "encrypt", params,
            "alg %s enc %s%s%s%s%s" % (
                alg, enc, ", cek and iv given" if given else "",
                ", zip" if zipped else "",
                ", all header parameters" if full else "",
                ", -O" if opt else ""),
            assume=asm + more, members=mem)
    r.alg = alg
    r.enc = enc
    r.given = given
    r.zipped = zipped
    r.cls = cls
    r.randoms = set(e.data[3] for e in r.events if e.kind == "call")
    return r


def each_encrypt(W, rep, fn, direct=True):
    W.key_attrs()
    cs, gs = sorted(CBC), sorted(GCM)
    jobs = []

    def add(cls, alg, enc, given, opt, zipped, full):
        def job(rp):
            r = encrypt_run(W, cls, alg, enc, given, opt, zipped, full)
            rp.stat(r.I)
            fn(rp, r)
        jobs.append(job)
    for i, alg in enumerate(ALGS):
        own = {"R": "JWE_RSA", "A": "JWE_SYM"}.get(alg[0])
        if rep.tier == "thorough":
            for enc in ENCS:
                for n in range(16):
                    o = [bool(n & 1 << x) for x in range(4)]
                    add("JWE", alg, enc, *o)
                    if own and direct and not (o[2] and own == "JWE_SYM"):
                        add(own, alg, enc, *o)
        else:
            for full in (False, True):
                add("JWE", alg, cs[i % 3], not i % 4, bool(i % 2),
                    bool(i // 2 % 2) == full, full)
                add("JWE", alg, gs[i % 3], not i % 3, not i % 2,
                    bool(i // 3 % 2) == full, full)
            if own and direct:
                for j, enc in enumerate(ENCS):
                    add(own, alg, enc, bool((i + j) % 2), bool(j % 3),
                        own == "JWE_RSA" and bool(j // 2 % 2),
                        bool((i + j) // 2 % 2))
    parallel(rep, jobs)


# -- what a token is made of ----------------------------------------------------
class Parts(object):
    """the decoded parts of one emitted token"""

    def __init__(self, r, st, t):
        self.r = r
        self.fs = st.facts
        self.segs = segments(t)
        self.ok = self.segs is not None and len(self.segs) == 5
        if not self.ok:
            return
        s = self.segs
        self.header = encoded(s[0])
        self.jek = self.unpack(s[1])
        self.iv = self.unpack(s[2])
        self.ct = self.unpack(s[3])
        self.tag = self.unpack(s[4])
        self.ok = self.header is not None and None not in (
            self.jek, self.iv, self.ct, self.tag)

    def unpack(self, s):
        if empty_seg(s):
            return C(b"")
        return encoded(s)

    def aad(self, t):
        return strip_text(t) is self.segs[0]

    def is_iv(self, t):
        return t is self.iv or t in alts_of(self.iv)

    def is_ct(self, t):
        return t is self.ct or t in alts_of(self.ct)

    def ops(self):
        return jwe.Ops(self.aad, self.is_iv, self.is_ct)

    def ceks(self):
        """content encryption keys the ciphertext is made with"""
        out = set()
        for c in alts_of(self.ct):
            if self.r.enc in GCM:
                x = gcm_seal(c, 0)
                k = x and x[0]
            else:
                x = jwe.aes_of(c, "encrypt")
                k = x and x[0].get("key")
                k = k and jwe.tail(k, CBC[self.r.enc][0])
            if k is not None:
                out.add(k)
        return out


def gcm_seal(t, i):
    """(key, iv as a number, plaintext, aad) if t is the ciphertext (i=0) or
    the tag as a number (i=1) AES_GCM.encrypt returns"""
    if t.op != "item" or intc(t.args[1]) != i:
        return None
    t = t.args[0]
    r, n = method_of(t)
    if n != "encrypt":
        return None
    if r.op == "fresh":
        r = r.args[0]
    k = call_args(r, ("master_key",)) if callee(r) == GCMCLS else {}
    a = call_args(t, ("init_value", "plaintext", "auth_data"))
    if set(k) != set(["master_key"]) or not set(a) >= set(
            ["init_value", "plaintext", "auth_data"]):
        return None
    return k["master_key"], a["init_value"], a["plaintext"], a["auth_data"]


def whole_iv(p, t):
    """the number t is the 12 octet initialization vector"""
    y = to_int(t)
    if y is None or not p.is_iv(y):
        return False
    return known_len(y) == 12 or entails(
        p.fs, lambda f: jwe.len_is(f, lambda u: u is y, 12))


def tokens(r):
    for st, v in r.values():
        for t in alts_of(v):
            yield Parts(r, st, t), st


def is_msg(t):
    t = strip_text(t)
    if callee(t) == "jwkest.as_bytes" and t.args[1]:
        t = strip_text(t.args[1][0])
    return t is param("self.msg")


def message(t):
    """(is the caller's message, compressed)"""
    if is_msg(t):
        return True, False
    if t.op == "call" and ext_is(t.args[0], "zlib.compress") and t.args[1]:
        return is_msg(t.args[1][0]), True
    return False, False


def plaintexts(p):
    """the plaintexts the ciphertext alternatives are made of; None if one
    of them is not what the enc algorithm prescribes"""
    out = []
    for c in alts_of(p.ct):
        if p.r.enc in GCM:
            x = gcm_seal(c, 0)
            if x is None or not whole_iv(p, x[1]):
                return None
            out.append(x[2])
            continue
        x = jwe.aes_of(c, "encrypt")
        if x is None:
            return None
        a, data = x
        ps = flat_cat([data])
        if len(ps) != 2 or not pkcs7(ps[1], ps[0], p.fs) or \
                not ext_is(a.get("mode", NONE),
                           "Cryptodome.Cipher.AES.MODE_CBC") or \
                not p.is_iv(a.get("iv", a.get("IV", NONE))):
            return None
        out.append(ps[0])
    return out


def same(a, b):
    return strip_text(a) is strip_text(b)


def byte_of(t, n):
    """t is the octet with the value n"""
    if is_const(t) and is_const(n) and isinstance(cval(n), int):
        return cval(t) == bytes([cval(n)])
    if t.op == "call" and ext_is(t.args[0], "struct.pack") and \
            len(t.args[1]) == 2:
        return const_in(t.args[1][0], ("B", "!B", ">B", "b'B'")) and \
            t.args[1][1] is n
    if t.op == "call" and t.args[0].op == "builtin" and t.args[1]:
        f = t.args[0].args[0]
        a = t.args[1][0]
        if f in ("bytes", "bytearray"):
            return a.op in ("tuple",) and list(a.args) == [n] or \
                a.op == "listv" and list(a.args[0]) == [n] and not a.args[1]
        if f == "chr":
            return a is n
    if callee(t) == "Cryptodome.Util.py3compat.bchr" and t.args[1]:
        return t.args[1][0] is n
    x = jwe.from_int(t)
    return x is not None and x[1] == 1 and x[0] is n


def pkcs7(t, pl, fs):
    """t is 16 - len(pl) % 16 octets with that value"""
    pred = lambda u: same(u, pl)
    if t.op != "repeat":
        return is_const(t) and cval(t) == b"\x10" * 16 and \
            entails(fs, lambda f: whole_blocks(f, pred))
    b, n = t.args[0], t.args[1]
    if not byte_of(strip_text(b), n):
        return False
    if intc(n) == 16:
        return entails(fs, lambda f: whole_blocks(f, pred))
    if missing(n, pred):
        return entails(fs, lambda f: any(
            p == (a.op == "truthy") and any(
                missing(x, pred) for x in a.args[a.op == "cmp":])
            for a, p in f
            if a.op in ("truthy", "cmp") and (
                a.op == "truthy" or a.args[0] == "eq" and
                C(0) in a.args[1:])))
    return n.op == "bin" and n.args[0] == "-" and \
        intc(n.args[1]) == 16 and rem16(n.args[2], pred)


def missing(n, pred):
    """-len % 16"""
    if n.op == "bin" and n.args[0] == "%" and intc(n.args[2]) == 16:
        m = n.args[1]
        if m.op == "un" and m.args[0] == "USub":
            z = length_of(m.args[1])
            return z is not None and pred(strip_text(z))
        if m.op == "bin" and m.args[0] == "-" and intc(m.args[1]) is not None \
                and intc(m.args[1]) % 16 == 0:
            z = length_of(m.args[2])
            return (z is not None and pred(strip_text(z))) or rem16(m.args[2], pred)
    return False


def whole_blocks(fs, pred):
    """the length is a multiple of 16, or the path is impossible"""
    if jwe.aligned(fs, pred):
        return True
    for a, p in fs:
        if a.op == "truthy" and not p and missing(a.args[0], pred):
            return True
        if p and a.op == "cmp" and a.args[0] == "eq" and C(0) in a.args[1:]:
            for x in a.args[1:]:
                if missing(x, pred) or (
                        x.op == "bin" and x.args[0] == "-" and
                        intc(x.args[1]) == 16 and rem16(x.args[2], pred)):
                    return True
    return False


def tag_ok(p, cek):
    for t in alts_of(p.tag):
        if p.r.enc in CBC:
            if not jwe.cbc_tag(t, p.r.enc, cek, p.ops()):
                return False
            continue
        x = from_int(t)
        if x is None or x[1] != 16:
            return False
        y = gcm_seal(x[0], 1)
        if y is None or y[0] is not cek or not p.aad(y[3]) or not any(
                gcm_seal(c, 0) == y for c in alts_of(p.ct)):
            return False
    return True


# -- C13 ----------------------------------------------------------------------------
def ephemeral(t):
    """the ephemeral key object of a derivation"""
    if t.op == "attr" and t.args[1] in ("d", "x", "y"):
        return t.args[0]
    return None


def header_party(p, name, used):
    """the header's apu/apv is the encoding of the value used; a value that
    is not in the header is the empty one"""
    vs = header_get(p.header, name)
    if vs is None or (len(vs) == 1 and vs[0] is NONE):
        return is_const(used) and not cval(used)
    for v in vs:
        if v is None:
            return False
        x = strip_text(v)
        if callee(x) in ("jwkest.b64e",) and x.args[1] and \
                x.args[1][0] is used:
            continue
        # the header keeps the text the value was decoded from
        ok = False
        for u in alts_of(used):
            u = strip_text(u)
            if callee(u) in ("jwkest.b64d",) and u.args[1] and \
                    strip_text(u.args[1][0]) is x:
                ok = True
        if not ok:
            return False
    return True


def public_epk(p, e):
    """the header's epk is the public serialization of the key object e"""
    vs = header_get(p.header, "epk")
    if not vs:
        return False
    for v in vs:
        if v is None:
            return False
        r, n = method_of(v)
        if n != "serialize" or r is not e:
            return False
        if any(not (is_const(x) and not cval(x)) for x in v.args[1]) or \
                any(not (is_const(x) and not cval(x)) for _, x in v.args[2]):
            return False
    return True


def derivation(p, t):
    """(recipient key, ephemeral key) if t is the agreed key `alg` asks for
    and the header lets the recipient derive it"""
    if callee(t) != KDF:
        return None
    a = call_args(t, ("curve", "key", "epk", "apu", "apv", "alg", "dk_len"))
    if len(a) != 7:
        return None
    alg, enc = p.r.alg, p.r.enc
    if alg == "ECDH-ES":
        name, bits = enc, CEKLEN[enc] * 8
    else:
        name = alg.split("+")[1]
        bits = int(name[1:4])
    if not const_in(strip_text(a["alg"]), (name, name.encode())) or \
            intc(a["dk_len"]) != bits:
        return None
    e = a["epk"]
    if e.op != "tuple" or len(e.args) != 2 or e.args[0].op != "attr" or \
            e.args[0].args[1] != "x":
        return None
    k = e.args[0].args[0]
    if e.args[1] is not T("attr", k, "y"):
        return None
    if a["key"].op != "attr" or a["key"].args[1] != "d":
        return None
    ek = a["key"].args[0]
    if not curve_of(a["curve"], (k, ek)):
        return None
    if not header_party(p, "apu", a["apu"]) or \
            not header_party(p, "apv", a["apv"]):
        return None
    if not public_epk(p, ek):
        return None
    return k, ek


def curve_of(c, keys):
    if c.op == "fresh":
        c = c.args[0]
    if c.op == "attr" and c.args[1] == "curve":
        return c.args[0] in keys
    if callee(c) == BYNAME and c.args[1]:
        x = c.args[1][0]
        return x.op == "attr" and x.args[1] == "crv" and x.args[0] in keys
    return False


def key_transport(p, cek):
    """(key object that opens the token, ephemeral key or None); None if the
    encrypted key is not what the algorithm prescribes for cek"""
    alg = p.r.alg
    out = []
    for j in alts_of(p.jek):
        if alg.startswith("RSA"):
            x = jwe.rsa_op(j, alg, "encrypt")
            if x is None or len(x[1]) != 1 or x[1][0] is not cek:
                return None
            out.append((jwe.key_material(x[0]), None))
        elif alg.startswith("A"):
            if callee(j) != WRAP or len(j.args[1]) != 2 or j.args[2] or \
                    j.args[1][1] is not cek:
                return None
            out.append((jwe.key_material(chars(j.args[1][0])), None))
        elif alg == "ECDH-ES":
            if not (is_const(j) and not cval(j)):
                return None
            x = derivation(p, cek)
            if x is None:
                return None
            out.append(x)
        else:
            if callee(j) != WRAP or len(j.args[1]) != 2 or j.args[2] or \
                    j.args[1][1] is not cek:
                return None
            x = derivation(p, j.args[1][0])
            if x is None:
                return None
            out.append(x)
    return out


def chars(t):
    """the int array a text was put together from, else t"""
    r, n = method_of(t)
    if n == "join" and t.args[1]:
        for u in subterms(t.args[1][0]):
            if u.op == "map":
                return u.args[2]
    return t


def caller_cek(p, ceks):
    return p.r.given and ceks == set([param("cek")])


def c13(W, rep):
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        n = 0
        for p, st in tokens(r):
            n += 1
            what = "alg %s" % r.alg
            rep.ob("five-parts", where, p.ok, what,
                   "[%s] the result is not made of five base64url parts" %
                   r.variant)
            if not p.ok:
                continue
            for name, val in (("alg", r.alg), ("enc", r.enc)):
                vs = header_get(p.header, name)
                rep.ob("header-truthful", where, bool(vs) and all(
                    v is not None and const_in(v, (val,)) for v in vs),
                    "%s %s" % (name, val),
                    "[%s] the header does not name it" % r.variant)
            ceks = p.ceks()
            rep.ob("content", where, len(ceks) == 1, "enc %s" % r.enc,
                   "[%s] no single content encryption key: %s" % (
                       r.variant, [show(c, 4)[:60] for c in ceks][:4]))
            if len(ceks) != 1:
                continue
            cek = list(ceks)[0]
            ps = plaintexts(p)
            rep.ob("content", where, ps is not None, "enc %s" % r.enc,
                   "[%s] the ciphertext is not what enc prescribes: %s" % (
                       r.variant, show(p.ct, 6)[:250]))
            for pl in ps or ():
                good, comp = message(pl)
                rep.ob("message", where, good, "enc %s" % r.enc,
                       "[%s] something else than the message is encrypted: "
                       "%s" % (r.variant, show(pl, 4)[:150]))
                zs = header_get(p.header, "zip")
                rep.ob("compression", where, bool(zs) and all(
                    z is not None and const_in(z, ("DEF",)) for z in zs)
                    if comp else not zs, "enc %s" % r.enc,
                    "[%s] the header's zip does not say whether the "
                    "content is compressed (%s)" % (r.variant, comp))
            rep.ob("tag", where, tag_ok(p, cek), "enc %s" % r.enc,
                   "[%s] the tag is not the one enc prescribes over header, "
                   "iv and ciphertext" % r.variant)
            if r.given and is_const(p.jek) and not cval(p.jek) and \
                    cek is param("cek") and r.alg.startswith("RSA"):
                # the recipient has the key the caller supplied
                rep.ob("key-transport", where, True, what)
                continue
            rep.ob("key-transport", where, key_transport(p, cek) is not None,
                   what, "[%s] the encrypted key is not what alg prescribes "
                   "for the content encryption key: %s" % (
                       r.variant, show(p.jek, 4)[:200]))
        rep.ob("five-parts", where, n > 0, "some token",
               "[%s] no token is ever produced" % r.variant)
    each_encrypt(W, rep, check)
    gcm_kernel(W, rep)
    wrap.kdf(W, rep)


def gcm_kernel(W, rep, tag_only=False):
    """AES_GCM.encrypt is GCM with a 96 bit initialization vector"""
    key, iv, pt, aad = [param(x) for x in (
        "master_key", "iv", "plaintext", "auth_data")]
    n = 0
    for opt in (False, True):
        I = W.interp(("jwkest.aes_gcm.gf_2_128_mul",), optimize=opt)
        if GCMCLS not in I.classes:
            raise AnalysisBroken("anchor class %s has vanished" % GCMCLS)
        num = T("call", T("ext", "Cryptodome.Util.number.bytes_to_long"),
                (iv,), ())
        lens = mk_cmp("eq", T("call", T("builtin", "len"), (iv,), ()), C(12))
        r = run(I, GCMCLS, "encrypt", [("init_value", num), "plaintext",
                                       "auth_data"], "-O" if opt else "",
                assume=[(lens, True), (isinst(key, "bytes"), True),
                        (isinst(pt, "bytes"), True),
                        (isinst(aad, "bytes"), True)], ctor=[key])
        rep.stat(I)
        for st, v in r.values():
            for t in alts_of(v):
                n += 1
                two = t.op == "tuple" and len(t.args) == 2
                rep.ob("gcm", r.entry, two, "result",
                       "not a pair of ciphertext and tag")
                if not two:
                    continue
                ct, tag = t.args
                ops = jwe.Ops(lambda u: u is aad, lambda u: u is iv,
                              lambda u: u is ct)
                ops.empty = is_const(ct) and not cval(ct)
                if not tag_only:
                    rep.ob("gcm-ciphertext", r.entry, entails(
                        st.facts, lambda f: gcm_ct(f, ct, key, pt, ops)),
                        "ciphertext", "not the CTR encryption of the "
                        "plaintext: %s" % show(ct, 6)[:250])
                rep.ob("gcm-tag", r.entry, entails(
                    st.facts, lambda f: jwe.gcm_tag_int(tag, f, key, ops)),
                    "tag", "not the GCM tag over the additional data and "
                    "the ciphertext: %s" % show(tag, 5)[:250])
    rep.ob("gcm", GCMCLS + ".encrypt", n > 0, "result", "no normal exit")


def gcm_ct(fs, ct, key, pt, ops):
    if is_const(ct):
        return not cval(ct) and nothing(fs, pt)
    c = ct
    if c.op == "slice":
        if c.args[1] not in (NONE, C(0)) or c.args[3] is not NONE or \
                length_of(c.args[2]) is not pt:
            return False
        c = c.args[0]
    x = jwe.aes_of(c, "encrypt")
    if x is None:
        return False
    a, data = x
    ps = flat_cat([data])
    if not jwe.same_bytes(a.get("key"), key) or not ext_is(
            a.get("mode", NONE), "Cryptodome.Cipher.AES.MODE_CTR"):
        return False
    if ps and ps[0] is not pt or len(ps) > 2:
        return False
    if len(ps) == 2 and (c is ct or not jwe.pad16(
            ps[1], lambda u: u is pt)):
        return False
    if "counter" in a:
        return jwe.ctr_ok(fs, a["counter"], ops)
    return "nonce" in a and jwe.iv_text(a["nonce"], fs, ops) and \
        intc(a.get("initial_value", NONE)) == 2


def nothing(fs, pt):
    return jwe.empty_ct(fs, jwe.Ops(None, None, lambda u: u is pt))


# -- C11 ----------------------------------------------------------------------------
def fresh_random(r, t, n=None):
    """t was drawn from the random source by this very call"""
    if t.op == "fresh" and t in r.randoms and t.args[0].op == "call" and \
            ext_is(t.args[0].args[0], *RANDOM):
        return n is None or known_len(t) == n
    return False


def new_key(r, e):
    """a key pair generated by this call, on some curve"""
    x = e.args[0] if e.op == "fresh" else e
    rr, n = method_of(x)
    if n != "load_key" or (e not in r.randoms and x not in r.randoms):
        return False
    y = rr.args[0] if rr.op == "fresh" else rr
    return callee(y) == "jwkest.jwk.ECKey" and \
        not y.args[1] and not y.args[2] and not (
            x.op != "call" or len(list(x.args[1]) + list(x.args[2])) != 1)


def c11(W, rep):
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        ivlen = 16 if r.enc in CBC else 12
        n = 0
        for p, st in tokens(r):
            if not p.ok:
                rep.ob("recognised", where, False, "alg %s" % r.alg,
                       "[%s] not a compact JWE" % r.variant)
                continue
            for v in alts_of(p.iv):
                n += 1
                rep.ob("fresh-iv", where, fresh_random(r, v, ivlen) or (
                    r.given and v is param("iv")), "enc %s" % r.enc,
                    "[%s] the initialization vector is not %d fresh random "
                    "octets: %s" % (r.variant, ivlen, show(v, 4)[:150]))
            for cek in p.ceks():
                if r.alg == "ECDH-ES":
                    ks = [cek]
                else:
                    for c in alts_of(cek):
                        rep.ob("fresh-cek", where, fresh_random(
                            r, c, CEKLEN[r.enc]) or (
                                r.given and c is param("cek")),
                            "alg %s" % r.alg,
                            "[%s] the content encryption key is not %d fresh "
                            "random octets: %s" % (
                                r.variant, CEKLEN[r.enc], show(c, 4)[:150]))
                if not r.alg.startswith("ECDH"):
                    continue
                x = key_transport(p, cek)
                rep.ob("fresh-ephemeral", where, bool(x) and all(
                    new_key(r, e) or given_epk(e) for k, e in x),
                    "alg %s" % r.alg,
                    "[%s] the ephemeral key is not generated for this "
                    "operation: %s" % (r.variant, [show(e, 4)[:100]
                                                   for k, e in x or ()]))
        rep.ob("recognised", where, n > 0, "alg %s" % r.alg,
               "[%s] no token is produced" % r.variant)
    each_encrypt(W, rep, check)
    c11_keygen(W, rep)
    c11_nonce(W, rep)


DRAW_BITS = ("Cryptodome.Random.random.getrandbits", "secrets.randbits")
DRAW_RANGE = ("Cryptodome.Random.random.randrange",
              "Cryptodome.Random.random.randint", "secrets.randbelow")


def scalar_draw(randoms, t, n):
    """an integer drawn from the random source by this very call, spread
    over (practically) all of 1 .. n-1"""
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = t.args[1:]
        if intc(b) is not None and abs(intc(b)) <= 1:
            return scalar_draw(randoms, a, n)
        if t.args[0] == "+" and intc(a) is not None and abs(intc(a)) <= 1:
            return scalar_draw(randoms, b, n)
        return False
    if t.op == "bin" and t.args[0] == "%":
        m = intc(t.args[2])
        return m is not None and n - 2 <= m <= n and \
            scalar_draw(randoms, t.args[1], n)
    b = to_int(t)
    if b is not None:
        return b.op == "fresh" and b.args[:2] in sites(randoms) and \
            b.args[0].op == "call" and ext_is(b.args[0].args[0], *RANDOM) \
            and (known_len(b) or 0) * 8 >= n.bit_length()
    if t.op != "fresh" or t.args[:2] not in sites(randoms) or \
            t.args[0].op != "call":
        return False
    f, a = t.args[0].args[0], list(t.args[0].args[1])
    if ext_is(f, *DRAW_BITS):
        return len(a) == 1 and (intc(a[0]) or 0) >= n.bit_length()
    if ext_is(f, *DRAW_RANGE):
        ends = [intc(x) for x in a]
        if None in ends or not 1 <= len(a) <= 2:
            return False
        lo, hi = (ends if len(ends) == 2 else (0, ends[0]))
        return 0 <= lo <= 1 and n - 2 <= hi <= n
    return False


def sites(randoms):
    """calls by place, whatever the round of the loop around them"""
    return set(x.args[:2] for x in randoms if x.op == "fresh")


def draws(I):
    return set(e.data[3] for e in I.events if e.kind == "call")


def c11_keygen(W, rep):
    """a generated key pair: the private scalar is drawn afresh, and the
    public point is its multiple of the base point"""
    W.key_attrs()
    I = W.interp()
    for name, cu in sorted(CURVES.items()):
        r = run(I, "jwkest.ecc.NISTEllipticCurve", "key_pair", [],
                ctor=[C(int(name[2:]))])
        rep.stat(I)
        rand = draws(I)
        where = where_end(r).split(" (")[0]
        n = 0
        for st, v in r.values():
            n += 1
            ok = v.op == "tuple" and len(v.args) == 2
            d = v.args[0] if ok else None
            rep.ob("fresh-private-key", where, ok and scalar_draw(
                rand, d, cu["n"]), name,
                "the private key is not a scalar drawn afresh from the "
                "whole range: %s" % show(v, 5)[:200])
            a = ec_point_call(v.args[1], "mulp", cu) if ok else None
            rep.ob("key-pair", where, a is not None and len(a) == 2 and
                   is_base(a[0], cu) and a[1] is d, name,
                   "the public key is not the multiple of the base point: "
                   "%s" % show(v, 5)[:200])
        rep.ob("fresh-private-key", where, n > 0, name, "no key is returned")
    r = run(I, "jwkest.jwk.ECKey", "load_key", ["key"])
    rep.stat(I)
    where = where_end(r).split(" (")[0]
    calls = [e for e in r.events if e.kind == "call" and
             method_of(e.data[3]) == (param("key"), "key_pair")]
    pairs = [e.data[3] for e in calls]
    rep.ob("key-pair", where, len(set(id(e.node) for e in calls)) == 1,
           "ECKey.load_key", "the halves may stem from two generated pairs")
    n = 0
    for st, v in r.res:
        n += 1
        o = I.obj(st, r.ref)
        f = dict((k, I.freeze(st, o.fields[k])) for k in ("d", "x", "y")
                 if k in o.fields)
        ok = any(f.get("d") is T("item", p, C(0)) and
                 f.get("x") is T("item", T("item", p, C(1)), C(0)) and
                 f.get("y") is T("item", T("item", p, C(1)), C(1))
                 for p in pairs)
        rep.ob("key-pair", where, ok, "ECKey.load_key",
               "the key object does not hold the generated pair: %s" %
               str(dict((k, show(x, 4)[:60]) for k, x in f.items())))
    rep.ob("key-pair", where, n > 0, "ECKey.load_key", "never succeeds")


def c11_nonce(W, rep):
    """every ECDSA signature uses a nonce drawn by that very call"""
    for alg in ("ES256", "ES384", "ES512"):
        k = Kernel(W, alg, "sign")
        rep.stat(k.I)
        cu = CURVES[CURVE_OF[alg]]
        rand = draws(k.I)
        n = 0
        for st, v in k.res:
            v = k.I.freeze(st, v)
            for x in alts_of(v):
                a = from_int(x.args[0]) if x.op == "cat" and x.args else None
                rs = [u for u in leaf_values(a[0])
                      if not const_in(u, (0,))] if a else []
                rep.ob("recognised", k.where, len(rs) > 0, "signature",
                       "the signature is not r || s: %s" % show(x, 4)[:150])
                for u in rs:
                    kk = nonce_of_r(u, cu)
                    if kk is None:
                        rep.ob("recognised", k.where, False, "r",
                               "not (kG).x mod n: %s" % show(u, 4)[:150])
                        continue
                    for w in leaf_values(kk):
                        if w is NONE:
                            continue      # replaced before it is used
                        n += 1
                        rep.ob("fresh-nonce", k.where, scalar_draw(
                            rand, w, cu["n"]), "nonce",
                            "the nonce is not drawn afresh from the whole "
                            "range by this call: %s" % show(w, 5)[:200])
        rep.ob("fresh-nonce", k.where, n > 0, "nonce", "no nonce is drawn")



def given_epk(e):
    """the caller put this ephemeral key into the header parameters"""
    epk = param("hdr.epk")
    x = e.args[0] if e.op == "fresh" else e
    return x is epk or (callee(x) == "jwkest.jwk.ECKey" and
                        list(x.args[1]) == [epk])


# -- C16, the producing side ----------------------------------------------------------
def c16_encrypt(W, rep):
    """the key a token is sealed with has the length its enc prescribes"""
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        want = CEKLEN[r.enc]
        for p, st in tokens(r):
            if not p.ok:
                continue
            for c in p.ceks():
                rep.ob("cek-size", where, known_len(c) == want or entails(
                    st.facts, lambda fs: jwe.len_is(
                        fs, lambda t: t is c, want), jwe.len_rel),
                    "enc %s" % r.enc,
                    "[%s] sealed with a key whose length is not known to be "
                    "%d octets: %s" % (r.variant, want, show(c, 4)[:150]))
    each_encrypt(W, rep, check)


# -- C30, the producing side ----------------------------------------------------------
def c30_encrypt(W, rep):
    """a token is sealed only for a fitting key of the caller"""
    def check(rep, r):
        where = where_end(r).split(" (")[0]
        if r.cls != "JWE":
            return              # these are handed the key itself
        isalg = lambda t: const_in(t, (r.alg,))
        want = jwe.KTY[r.alg[0]]
        for p, st in tokens(r):
            if not p.ok:
                continue
            for cek in p.ceks():
                for k, e in key_transport(p, cek) or ():
                    for x in alts_of(k):
                        fits(rep, r, st.facts, where, x, want, isalg)
    each_encrypt(W, rep, check, direct=False)
    for n in ("seal-key-type", "seal-key-use", "seal-key-alg",
              "seal-given-keys"):
        rep.floor(n, 10)


def fits(rep, r, facts, where, k, want, isalg):
    from .jws import (kty_ok, attr_free_or, rel_key, falsy, eq_any)

    def ob(rule, goal, rel, why):
        rep.ob(rule, where, entails(facts, goal, rel), "alg %s" % r.alg,
               "[%s] %s: %s" % (r.variant, why, show(k, 4)[:100]))
    ob("seal-key-type", lambda f: kty_ok(f, k, want), rel_key(k, "kty"),
       "the token is sealed for a key not known to be of type " + want)
    ob("seal-key-use", lambda f: attr_free_or(
        f, k, "use", lambda t: const_in(t, ("enc",))), rel_key(k, "use"),
       "the token is sealed for a key reserved for another use")
    ob("seal-key-alg", lambda f: attr_free_or(f, k, "alg", isalg),
       rel_key(k, "alg"),
       "the token is sealed for a key reserved for another algorithm")
    kid = param("hdr.kid")
    if any(u is kid for f in facts for u in subterms(f[0])):
        kk = T("attr", k, "kid")
        ob("seal-key-id", lambda f: eq_any(
            f, lambda t: t is kid, lambda t: t is kk), rel_key(k, "kid"),
           "the token is sealed for a key with another kid than the one "
           "asked for")
    mine = any(u is param("keys") for u in subterms(k))
    ob("seal-given-keys", lambda f: mine or falsy(f, param("keys")),
       lambda a: param("keys") in subterms(a),
       "the token is sealed for a key that is not the caller's")
