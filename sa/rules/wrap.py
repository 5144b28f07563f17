"""Rules about AES key wrap (RFC 3394) and the key derivation of ECDH-ES,
decided for every key length these are used with: with the lengths fixed the
loops have a fixed number of rounds and the result is one term, which has to
be the standard's."""
from ..terms import T, C, NONE, is_const, cval, show
from ..query import method_of, alts_of, strip_text
from ..runs import run, param
from ..report import parallel
from ..values import known_len
from .token import const_in, intc
from .kernels import ext_is, to_int, from_int
from .jwe import flat_cat

MOD = "jwkest.aes_key_wrap."
IV = 0xa6a6a6a6a6a6a6a6
LENGTHS = tuple(range(16, 129, 8)) + (344, 512)
THOROUGH = tuple(range(16, 641, 8))
ECB = "Cryptodome.Cipher.AES.MODE_ECB"


def octets(n):
    """a byte string of which only the length is known"""
    return T("call", T("ext", "os.urandom"), (C(n),), ())


def unrolled(W, opt=False):
    return W.interp((), optimize=opt, unroll=80)


# -- normal form ---------------------------------------------------------------
def struct_of(t, name):
    """(format, arguments) of struct.pack/unpack and of Struct(...).pack"""
    if t.op == "call" and ext_is(t.args[0], "struct." + name) and t.args[1]:
        return t.args[1][0], t.args[1][1:]
    r, n = method_of(t)
    if n == name and r is not None and r.op == "call" and \
            ext_is(r.args[0], "struct.Struct") and r.args[1]:
        return r.args[1][0], t.args[1]
    return None


def quad_in(t):
    """the octets a 64 bit number was read from"""
    b = to_int(t)
    if b is not None:
        return b
    if t.op == "item" and intc(t.args[1]) == 0:
        x = struct_of(t.args[0], "unpack")
        if x is not None and const_in(x[0], (">Q", "!Q", b">Q", b"!Q")):
            return x[1][0]
    return None


def quad_out(t):
    """the number 8 octets were made of"""
    x = from_int(t)
    if x is not None and x[1] == 8:
        return x[0]
    x = struct_of(t, "pack")
    if x is not None and len(x[1]) == 1 and const_in(
            x[0], (">Q", "!Q", b">Q", b"!Q")):
        return x[1][0]
    return None


BLOCKS = {}


def aes(parts):
    """the cipher applied to these 16 octets: equal inputs, equal node"""
    return "aes", BLOCKS.setdefault(parts, len(BLOCKS))


class Norm(object):
    """normal forms of the values key wrapping computes with"""

    def __init__(self, kek, data, op):
        self.kek = kek
        self.data = data
        self.op = op
        self.memo = {}
        self.total = known_len(data)

    def num(self, t):
        """(constant, octets): the octets read as a number, xor constant"""
        if is_const(t):
            return (cval(t), None) if isinstance(cval(t), int) else None
        b = quad_in(t)
        if b is not None:
            n = self.oct(b)
            return self.split(n) if n is not None else None
        if t.op == "bin" and t.args[0] == "^":
            a, c = self.num(t.args[1]), self.num(t.args[2])
            if a is None or c is None or (a[1] and c[1]):
                return None
            return a[0] ^ c[0], a[1] or c[1]
        return None

    def split(self, n):
        if len(n) == 1 and n[0][0] == "xor":
            return n[0][1], n[0][2]
        if n and all(x[0] == "lit" for x in n):
            return int.from_bytes(b"".join(x[1] for x in n), "big"), None
        return 0, n

    def join(self, c, n):
        if n is None:
            return (("lit", c.to_bytes(8, "big")),) if 0 <= c < 1 << 64 \
                else None
        return n if c == 0 else (("xor", c, n),)

    def oct(self, t):
        if t not in self.memo:
            self.memo[t] = self._oct(t)
        return self.memo[t]

    def part(self, n, lo, hi):
        """octets lo..hi of the parts n"""
        out = []
        at = 0
        for x in n:
            l = self.size(x)
            a, b = max(lo - at, 0), min(hi - at, l)
            if a < b:
                if (a, b) == (0, l):
                    out.append(x)
                elif x[0] == "in":
                    out.append(("in", x[1] + a, x[1] + b))
                elif x[0] == "lit":
                    out.append(("lit", x[1][a:b]))
                elif x[0] == "aes":
                    out.append(("cut", x, a, b))
                elif x[0] == "cut":
                    out.append(("cut", x[1], x[2] + a, x[2] + b))
                else:
                    return None
            at += l
        return tuple(out)

    def size(self, x):
        return {"in": lambda: x[2] - x[1], "lit": lambda: len(x[1]),
                "aes": lambda: 16, "cut": lambda: x[3] - x[2],
                "xor": lambda: 8}[x[0]]()

    def _oct(self, t):
        """the parts of a byte string"""
        if t is self.data:
            return (("in", 0, self.total),)
        if is_const(t) and isinstance(cval(t), bytes):
            return (("lit", cval(t)),)
        q = quad_out(t)
        if q is not None:
            n = self.num(q)
            return self.join(*n) if n is not None else None
        if t.op == "call" and t.args[0].op == "builtin" and \
                t.args[0].args[0] in ("bytes", "bytearray") and \
                len(t.args[1]) == 1:
            return self.oct(t.args[1][0])
        if t.op == "slice":
            n = self.oct(t.args[0])
            if n is None or t.args[3] is not NONE or not all(
                    x is NONE or intc(x) is not None for x in t.args[1:3]):
                return None
            whole = sum(self.size(x) for x in n)
            lo, hi, _ = slice(*[None if x is NONE else intc(x)
                                for x in t.args[1:3]]).indices(whole)
            return self.part(n, lo, hi)
        ps = flat_cat([t])
        if len(ps) != 1 or ps[0] is not t:
            out = []
            for p in ps:
                n = self.oct(p)
                if n is None:
                    return None
                out.extend(n)
            return self.merge(out)
        r, n = method_of(t)
        if n == self.op and len(t.args[1]) == 1:
            if r.op == "fresh":
                r = r.args[0]
            if r.op == "call" and ext_is(
                    r.args[0], "Cryptodome.Cipher.AES.new"):
                a = list(r.args[1])
                if len(a) == 2 and not r.args[2] and a[0] is self.kek and \
                        ext_is(a[1], ECB):
                    b = self.oct(t.args[1][0])
                    if b is not None and sum(map(self.size, b)) == 16:
                        return (aes(b),)
        return None

    def merge(self, ps):
        out = []
        for p in ps:
            if out and p[0] == "in" and out[-1][0] == "in" and \
                    out[-1][2] == p[1]:
                out[-1] = ("in", out[-1][1], p[2])
            elif out and p[0] == "lit" and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
            elif out and p[0] == "cut" and out[-1][0] == "cut" and \
                    out[-1][1] == p[1] and out[-1][3] == p[2]:
                q = ("cut", p[1], out[-1][2], p[3])
                out[-1] = q[1] if q[2:] == (0, 16) else q
            else:
                out.append(p)
        return tuple(out)


# -- RFC 3394 ------------------------------------------------------------------
def lo(b):
    return ("cut", b, 0, 8)


def hi(b):
    return ("cut", b, 8, 16)


def xor(x, c):
    if x[0] == "lit":
        return ("lit", (int.from_bytes(x[1], "big") ^ c).to_bytes(8, "big"))
    return ("xor", c, (x,))


def rfc_wrap(n):
    """section 2.2.1 for n blocks of input"""
    a = ("lit", IV.to_bytes(8, "big"))
    r = [None] + [("in", 8 * i, 8 * i + 8) for i in range(n)]
    for j in range(6):
        for i in range(1, n + 1):
            b = aes((a, r[i]))
            a = xor(lo(b), n * j + i)
            r[i] = hi(b)
    return tuple([a] + r[1:])


def rfc_unwrap(n):
    """section 2.2.2 for n blocks of output: (blocks, register)"""
    a = ("in", 0, 8)
    r = [None] + [("in", 8 * i, 8 * i + 8) for i in range(1, n + 1)]
    for j in range(5, -1, -1):
        for i in range(n, 0, -1):
            b = aes((xor(a, n * j + i), r[i]))
            a = lo(b)
            r[i] = hi(b)
    return tuple(r[1:]), a


class Sums(Norm):
    """merging adjacent input blocks hides the block structure"""

    def merge(self, ps):
        out = []
        for p in ps:
            if p[0] == "in" and p[2] - p[1] > 8 and not (
                    p[2] - p[1]) % 8:
                for x in range(p[1], p[2], 8):
                    out.append(("in", x, x + 8))
            else:
                out.append(p)
        return tuple(out)


def c28(W, rep):
    jobs = []

    def wrap(ln):
        def job(rp):
            I = unrolled(W)
            d = octets(ln)
            r = run(I, None, MOD + "aes_wrap_key", ["kek", ("plaintext", d)],
                    "%d octets" % ln)
            rp.stat(I)
            good = not ln % 8 and ln >= 16
            if not good:
                rp.ob("wrap-length", r.entry, not r.res, "impossible length",
                      "%d octets are wrapped" % ln)
                return
            n = 0
            want = rfc_wrap(ln // 8)
            N = Sums(param("kek"), d, "encrypt")
            for st, v in r.values():
                for x in alts_of(v):
                    n += 1
                    rp.ob("wrap", r.entry, N.oct(x) == want, "RFC 3394, 2.2.1",
                          "[%d octets] the wrapped key is not the "
                          "standard's: %s" % (ln, show(x, 4)[:200]))
            rp.ob("wrap", r.entry, n > 0, "RFC 3394, 2.2.1",
                  "[%d octets] nothing is wrapped" % ln)
        return job

    def unwrap(ln, opt):
        def job(rp):
            I = unrolled(W, opt)
            d = octets(ln)
            r = run(I, None, MOD + "aes_unwrap_key", ["kek", ("wrapped", d)],
                    "%d octets" % ln)
            rp.stat(I)
            good = not ln % 8 and ln >= 24
            if not good:
                rp.ob("unwrap-length", r.entry, not r.res,
                      "impossible length", "%d octets are unwrapped" % ln)
                return
            n = 0
            want, reg = rfc_unwrap(ln // 8 - 1)
            N = Sums(param("kek"), d, "decrypt")
            for st, v in r.values():
                ok = checked(N, st.facts, reg)
                rp.ob("integrity", r.entry, ok, "RFC 3394, 2.2.3",
                      "[%d octets] a key is returned although the integrity "
                      "check register was not found to be A6A6A6A6A6A6A6A6"
                      % ln)
                for x in alts_of(v):
                    n += 1
                    rp.ob("unwrap", r.entry, N.oct(x) == want,
                          "RFC 3394, 2.2.2",
                          "[%d octets] the key is not the standard's: %s" % (
                              ln, show(x, 4)[:200]))
            rp.ob("unwrap", r.entry, n > 0, "RFC 3394, 2.2.2",
                  "[%d octets] nothing is unwrapped" % ln)
        return job
    for ln in THOROUGH if rep.tier == "thorough" else LENGTHS:
        jobs.append(wrap(ln))
        jobs.append(unwrap(ln + 8, False))
        jobs.append(unwrap(ln + 8, True))
    odd = range(0, 90) if rep.tier == "thorough" else (
        0, 1, 7, 8, 9, 15, 16, 17, 20, 23, 25, 28, 31, 33, 41, 44)
    for ln in odd:
        if ln % 8 or ln < 16:
            jobs.append(wrap(ln))
        if ln % 8 or ln < 24:
            jobs.append(unwrap(ln, False))
    parallel(rep, jobs)


def checked(N, fs, reg):
    """the register was found equal to the initial value"""
    def holds(a, p):
        if a.op == "cmp" and a.args[0] == "eq" and p:
            xs = a.args[1:]
        elif a.op == "truthy" and p and a.args[0].op == "call" and \
                len(a.args[0].args[1]) == 2 and ext_is(
                    a.args[0].args[0], "hmac.compare_digest",
                    "secrets.compare_digest"):
            xs = a.args[0].args[1]
        else:
            return False
        for x, y in (xs, xs[::-1]):
            if const_in(y, (IV, IV.to_bytes(8, "big"))):
                n = N.num(x)
                if n is not None and n[0] == 0 and n[1] == (reg,):
                    return True
                if N.oct(x) == (reg,):
                    return True
        return False
    return any(holds(a, p) for a, p in fs)


# -- SP 800-56A concatenation ----------------------------------------------------
def be32(t, pred):
    x = from_int(t)
    if x is not None and x[1] == 4:
        return pred(x[0])
    x = struct_of(t, "pack")
    if x is not None and len(x[1]) == 1 and const_in(
            x[0], (">I", "!I", ">L", "!L", b">I", b"!I")):
        return pred(x[1][0])
    return False


def be32_is(t, n):
    if is_const(t):
        return cval(t) == n.to_bytes(4, "big")
    return be32(t, lambda u: intc(u) == n)


def sha256_of(t):
    """the pieces a SHA-256 digest is over"""
    r, n = method_of(t)
    if n != "digest" or t.args[1]:
        return None
    data = []
    while r.op == "upd":
        data.insert(0, r.args[1])
        r = r.args[0]
    if r.op == "fresh":
        r = r.args[0]
    if r.op != "call" or not ext_is(r.args[0], "Cryptodome.Hash.SHA256.new",
                                    "hashlib.sha256"):
        return None
    if r.args[2] or len(r.args[1]) > 1:
        return None
    return flat_cat(list(r.args[1]) + data)


def kdf(W, rep):
    """ecdh_derive_key is the Concat KDF with SHA-256, RFC 7518, 4.6.2"""
    KDF = "jwkest.extra.ecdh_derive_key"
    for bits in (128, 192, 256, 384, 512):
        I = unrolled(W)
        r = run(I, None, KDF, ["curve", "key", "epk", "apu", "apv", "alg",
                               ("dk_len", C(bits))], "%d bits" % bits)
        rep.stat(I)
        n = 0
        for st, v in r.values():
            for x in alts_of(v):
                n += 1
                rep.ob("derivation", r.entry, kdf_term(x, bits),
                       "RFC 7518, 4.6.2",
                       "[%d bits] the key is not derived as prescribed: %s" %
                       (bits, show(x, 6)[:250]))
        rep.ob("derivation", r.entry, n > 0, "RFC 7518, 4.6.2",
               "[%d bits] no key" % bits)


def kdf_term(t, bits):
    size = bits // 8
    if known_len(t) != size:
        return False
    while t.op == "slice":
        if not (t.args[1] is NONE or intc(t.args[1]) == 0) or \
                t.args[3] is not NONE:
            return False
        t = t.args[0]
    ps = flat_cat([t])
    if len(ps) < -(-size // 32):
        return False
    for i, p in enumerate(ps):
        d = sha256_of(p)
        if d is None or len(d) != 9:
            return False
        if not be32_is(d[0], i + 1):
            return False
        z = d[1]
        if method_of(z)[1] != "dh_z" or method_of(z)[0] is not \
                param("curve") or list(z.args[1]) != [param("key"),
                                                      param("epk")]:
            return False
        for j, name in ((2, "alg"), (4, "apu"), (6, "apv")):
            if strip_text(d[j + 1]) is not param(name) or not be32(
                    d[j], lambda u: length_is(u, param(name))):
                return False
        if not be32_is(d[8], bits):
            return False
    return True


def length_is(u, x):
    return u.op == "call" and u.args[0].op == "builtin" and \
        u.args[0].args[0] == "len" and len(u.args[1]) == 1 and \
        strip_text(u.args[1][0]) is x
