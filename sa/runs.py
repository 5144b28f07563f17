"""The analyses the rules are evaluated on: entry points, argument variants
and the kernels that are verified on their own."""
import time

from .terms import T, C
from .project import Project, AnalysisBroken
from .engine import Interp
from . import values

CODECS = {
    "jwkest.b64d": "bytes", "jwkest.b64e": "bytes",
    "jwkest.as_bytes": "bytes", "jwkest.as_unicode": "str",
    "jwkest.long_to_base64": "str", "jwkest.base64_to_long": "int",
    "jwkest.base64url_to_long": "int", "jwkest.jwt.b2s_conv": None,
    "jwkest.long2intarr": None, "jwkest.b64e_enc_dec": "str",
    "jwkest.b64d_enc_dec": "str", "jwkest.jwt.b64encode_item": "bytes"}
JWE_OPAQUE = {
    "jwkest.aes_key_wrap.aes_wrap_key": "bytes",
    "jwkest.aes_key_wrap.aes_unwrap_key": "bytes",
    "jwkest.extra.ecdh_derive_key": "bytes",
    "jwkest.aes_gcm.gf_2_128_mul": "int"}
values.OPAQUE_KINDS.update(JWE_OPAQUE)
values.OPAQUE_KINDS.update(CODECS)

KEYCLASSES = set("jwkest.jwk." + x for x in (
    "keyrep", "RSAKey", "ECKey", "SYMKey", "Key", "KEYS", "load_x509_cert"))

JWE_KERNELS = set("jwkest.aes_key_wrap." + x for x in (
    "aes_wrap_key", "aes_unwrap_key", "aes_wrap_key_withpad",
    "aes_unwrap_key_withpad")) | set([
        "jwkest.extra.ecdh_derive_key", "jwkest.extra.concat_sha256",
        "jwkest.ecc.NISTEllipticCurve.sign",
        "jwkest.ecc.NISTEllipticCurve.verify",
        "jwkest.ecc.NISTEllipticCurve.dh_z",
        "jwkest.ecc.NISTEllipticCurve.by_name",
        "jwkest.ecc.NISTEllipticCurve.int2bytes",
        "jwkest.ecc.NISTEllipticCurve.bytes2int",
        "jwkest.aes_gcm.AES_GCM", "jwkest.aes_gcm.gf_2_128_mul",
        "jwkest.extra.aes_cbc_hmac_encrypt",
        "jwkest.extra.aes_cbc_hmac_decrypt"])


def param(n):
    return T("param", n)


class World(object):
    """the parsed repository"""

    def __init__(self, repo):
        self.project = Project(repo)
        self._tables = None
        self._key_attrs = None
        self._cache = {}

    def interp(self, opaque=(), optimize=False, noopaque=(), unroll=0,
               names=0):
        opq = set(CODECS) | set(opaque)
        opq -= set(noopaque)

        def op(q):
            return q in opq or (q.startswith("jwkest.elliptic.") and
                                  q not in noopaque)
        ck = (frozenset(opq), frozenset(noopaque), bool(optimize), unroll,
              names)
        I = self._cache.get(ck)
        if I is None:
            I = self._cache[ck] = Interp(self.project, opaque=op,
                                         optimize=optimize)
            if unroll:
                I.UNROLL = I.UNROLL_COMP = I.UNROLL_WHILE = unroll
            if names:
                I.UNROLL_NAMES = names
                I.JOIN_RETURNS = 60
                I.MAXSTATES = 120
        I.done_ops = set()
        if self._key_attrs is not None:
            I.total_attrs = self._key_attrs
        return I

    def key_attrs(self):
        """attributes every key object has: those every constructor of the
        key classes assigns on every normal path"""
        if self._key_attrs is None:
            I = self.interp()
            common = None
            for k in ("RSAKey", "ECKey", "SYMKey"):
                q = "jwkest.jwk." + k
                if q not in I.classes:
                    raise AnalysisBroken("anchor class %s has vanished" % q)
                I.record = False
                r = I.instantiate(T("class", q), [], {}, [], I.init,
                                  I.classes[q]["node"], I.entry_frame())
                for st, ref in r:
                    fs = set(k2 for k2, v in I.obj(st, ref).fields.items()
                             if v.op != "unbound")
                    common = fs if common is None else common & fs
            self._key_attrs = frozenset(
                n for n in ("kid", "use", "alg", "kty")
                if n in (common or ()))
        return self._key_attrs

    # -- the registries ----------------------------------------------------
    def table(self, mod, name):
        """the abstract value of a module-level name after module execution"""
        I = self.base()
        fid = ("mod", mod)
        f = I.init.frames.get(fid)
        if f is None or name not in f:
            raise AnalysisBroken("module-level %s.%s has vanished" %
                                 (mod, name))
        return I, f[name]

    def base(self):
        if self._tables is None:
            self._tables = self.interp()
        return self._tables

    def signer_classes(self):
        """class of every object in the JWS algorithm registry"""
        I, ref = self.table("jwkest.jws", "SIGNER_ALGS")
        o = I.obj(I.init, ref) if ref.op == "ref" else None
        if o is None or o.kind != "dict":
            raise AnalysisBroken("SIGNER_ALGS is not a plain registry")
        out = {}
        for k, v in o.fields.items():
            if v.op == "ref":
                out[k] = I.obj(I.init, v).cls
            else:
                out[k] = None
        return out

    def methods(self, classes, name):
        """qualified names of the implementations of method `name`"""
        I = self.base()
        out = set()
        for c in classes:
            if c is None:
                continue
            for k in I.mro(c):
                q = "%s.%s" % (k, name)
                if q in I.funcs:
                    out.add(q)
                    break
        return out


class Run(object):
    def __init__(self, I, entry, variant, st, ref, env, res, raised, secs):
        self.I = I
        self.entry = entry
        self.variant = variant
        self.st = st
        self.ref = ref
        self.env = env
        self.res = res
        self.raised = raised
        self.events = I.events
        self.secs = secs

    def values(self):
        for s, v in self.res:
            yield s, self.I.freeze(s, v)


def run(I, cls, meth, params, variant="", assume=(), havoc=True,
        members=(), ctor=None):
    """members: all the entries of the object's own header dict, if given;
    ctor: arguments the object was made with"""
    t = time.time()
    I.stats.update(functions=set(), statements=0, calls=0, widened=0,
                   capped=0, unsupported=set())
    st = I.init
    env = {}
    ref = None
    if cls is not None:
        if ctor is not None:
            for a, pol in assume:
                st = I.assume(st, a, pol)
            I.record = False
            made = I.instantiate(T("class", cls), list(ctor), {}, [], st,
                                 I.classes[cls]["node"], I.entry_frame())
            I.record = True
            if len(made) != 1:
                raise AnalysisBroken("constructor of %s" % cls)
            st, ref = made[0]
        else:
            st, ref = I.new_symbolic(cls, havoc=havoc)
        env["self"] = ref
        if members:
            d = I.obj(st, ref).fields.get("_dict")
            o = I.obj(st, d) if d is not None and d.op == "ref" else None
            if o is None or o.kind != "dict":
                raise AnalysisBroken("%s has no header dict" % cls)
            o = o.rep(base=None)
            for k, v in members:
                o = o.with_field(k, v)
            st = st.set_obj(d.args[0], o)
        # the method may be inherited
        for k in I.mro(cls):
            q = "%s.%s" % (k, meth)
            if q in I.funcs:
                break
        else:
            raise AnalysisBroken("anchor %s.%s has vanished" % (cls, meth))
    else:
        q = meth
    if q not in I.funcs:
        raise AnalysisBroken("anchor %s has vanished" % q)
    names = [a.arg for a in I.funcs[q].node.args.args]
    for p in params:
        if isinstance(p, tuple):
            if callable(p[1]):
                # built from the state: p[1](I, state) -> state, value
                st, env[p[0]] = p[1](I, st)
            else:
                env[p[0]] = p[1]
            p = p[0]
        else:
            env[p] = param(p)
        if p not in names and I.funcs[q].node.args.kwarg is None:
            raise AnalysisBroken("%s no longer takes %s" % (q, p))
    for a, pol in assume:
        s2 = I.assume(st, a, pol)
        if s2 is None:
            raise AnalysisBroken("contradictory entry assumption")
        st = s2
    if cls is not None:
        first = names[0] if names else "self"
        env[first] = env.pop("self")
    I.events = []
    I._ev_seen = set()
    res, raised = I.run_entry(q, env, st)
    return Run(I, q, variant, st, ref, env, res, raised, time.time() - t)


def isinst(t, cls):
    return T("isinst", t, T("builtin", cls))
