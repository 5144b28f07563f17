"""What a value is, relative to the received token: which dot-separated part,
which decoded part, the signing input, a header parameter, the payload."""
from ..terms import T, C, NONE, TRUE, FALSE, is_const, cval, subterms, children
from ..query import callee, method_of, strip_text, alts_of, strip_cmp_true

DOTS = (b".", ".")
TRIM = ("strip", "lstrip", "rstrip")


def const_in(t, vals):
    return is_const(t) and any(type(cval(t)) is type(v) and cval(t) == v
                               for v in vals)


def intc(t):
    if is_const(t) and isinstance(cval(t), int) and \
            not isinstance(cval(t), bool):
        return cval(t)
    return None


class Token(object):
    """root: predicate telling whether a term is the received text"""

    def __init__(self, root, nparts):
        self.root = root
        self.n = nparts

    # -- text --------------------------------------------------------------
    def is_text(self, t):
        t = strip_text(t)
        while method_of(t)[1] in TRIM:
            # taking something off the ends: that is for C17 to refuse
            t = strip_text(method_of(t)[0])
        return self.root(t)

    def splitcall(self, t):
        """(method, dot count limit) if t is a split of the token text"""
        while t.op == "call" and t.args[0].op == "builtin" and \
                t.args[0].args[0] in ("tuple", "list") and t.args[1]:
            t = t.args[1][0]
        r, n = method_of(t)
        if r is None or n not in ("split", "rsplit", "partition",
                                  "rpartition"):
            return None
        a = t.args[1]
        if not a or not const_in(a[0], DOTS) or not self.is_text(r):
            return None
        lim = None
        if len(a) > 1:
            lim = intc(a[1])
            if lim is None:
                return None
        for k, v in t.args[2]:
            if k != "maxsplit" or intc(v) is None:
                return None
            lim = intc(v)
        return n, lim

    def part(self, t):
        """index of the token part that is the text t, or None"""
        t = strip_text(t)
        if t.op == "slice" and t.args[2] is NONE:
            # S[k:] unpacked further is handled through item below
            return None
        if t.op != "item":
            return None
        base, k = t.args[0], intc(t.args[1])
        if k is None:
            return None
        off = 0
        if base.op == "slice":
            lo = base.args[1]
            off = 0 if lo is NONE else intc(lo)
            if off is None or k < 0:
                return None
            base = base.args[0]
        sc = self.splitcall(base)
        if sc is None:
            return None
        n, lim = sc
        k += off
        if n == "split":
            if lim is not None and lim < self.n - 1:
                # the last piece holds the rest of the token
                if k < 0 or k >= lim:
                    return None
                return k
            if k < 0:
                k += self.n
            return k if 0 <= k < self.n else None
        if n == "rsplit":
            if lim is None or lim >= self.n - 1:
                return k + self.n if k < 0 else k
            # k-th piece of lim+1 from the right
            if k < 0:
                k += lim + 1
            k = self.n - 1 - (lim - k)
            return k if k > self.n - 1 - lim else None
        if n == "partition":
            return 0 if k in (0, -3) else None
        if n == "rpartition":
            return self.n - 1 if k in (2, -1) else None
        return None

    def prefix(self, t, upto):
        """is t the received text of parts 0..upto-1, dots included?"""
        t = strip_text(t)
        if upto == 1 and self.part(t) == 0:
            return True
        if t.op == "cat":
            want = []
            for i in range(upto):
                if i:
                    want.append(".")
                want.append(i)
            if len(want) != len(t.args):
                return False
            for w, a in zip(want, t.args):
                if w == ".":
                    if not const_in(a, DOTS):
                        return False
                elif self.part(a) != w:
                    return False
            return True
        if t.op == "bin" and t.args[0] == "%" and is_const(t.args[1]):
            f = cval(t.args[1])
            if f in (b"%s.%s", "%s.%s", b"%b.%b") and upto == 2 and \
                    t.args[2].op == "tuple":
                x = t.args[2].args
                return len(x) == 2 and self.part(x[0]) == 0 and \
                    self.part(x[1]) == 1
            return False
        if t.op == "fmt":
            return False
        r, n = method_of(t)
        if n == "join" and const_in(r, DOTS) and t.args[1]:
            s = t.args[1][0]
            if s.op in ("tuple",):
                xs = s.args
            elif s.op == "listv" and not s.args[1]:
                xs = s.args[0]
            elif s.op == "slice":
                lo, hi = s.args[1], s.args[2]
                if not (lo is NONE or intc(lo) == 0):
                    return False
                h = intc(hi)
                sc = self.splitcall(s.args[0])
                if sc is None or sc[0] != "split" or h is None:
                    return False
                if sc[1] is not None and sc[1] < self.n - 1:
                    return False
                if h < 0:
                    h += self.n
                return h == upto
            else:
                return False
            return len(xs) == upto and all(
                self.part(x) == i for i, x in enumerate(xs))
        if t.op == "item" and upto == self.n - 1:
            sc = self.splitcall(t.args[0])
            k = intc(t.args[1])
            if sc is not None and k is not None:
                n, lim = sc
                if n == "rsplit" and lim == 1:
                    return k in (0, -2)
                if n == "rpartition":
                    return k in (0, -3)
            return False
        if t.op == "slice" and self.is_text(t.args[0]) and \
                upto == self.n - 1:
            lo, hi = t.args[1], t.args[2]
            if lo is NONE or intc(lo) == 0:
                r, n = method_of(hi)
                if n in ("rindex", "rfind") and self.is_text(r) and \
                        hi.args[1] and const_in(hi.args[1][0], DOTS):
                    return True
        return False

    def decoded(self, t):
        """index i if t is base64url-decode(part i)"""
        t = strip_text(t)
        if callee(t) == "jwkest.b64d" and len(t.args[1]) == 1:
            return self.part(t.args[1][0])
        if callee(t) == "jwkest.b64d_enc_dec" and t.args[1]:
            return self.part(t.args[1][0])
        if t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].args[0] in ("base64.urlsafe_b64decode",
                                      "base64.b64decode") and t.args[1]:
            # lenient about the alphabet: that is for C17 to say
            x = t.args[1][0]
            if x.op == "cat":
                x = x.args[0][0] if isinstance(x.args[0], tuple) \
                    else x.args[0]
            return self.part(x)
        return None

    def headers(self, t):
        """is t the parsed protected header of the token?"""
        t = strip_json(t)
        if t is None:
            return False
        return self.decoded(t) == 0

    def header(self, t, name):
        """is t header parameter `name` of the protected header?"""
        while True:
            if t.op == "item" and const_in(t.args[1], (name,)):
                return self.headers(t.args[0])
            r, n = method_of(t)
            if n == "get" and t.args[1] and const_in(t.args[1][0], (name,)):
                return self.headers(r)
            return False

    def only_from(self, t, i, env=()):
        """is every input of t the decoded part i of the token?"""
        seen = {}

        def go(u):
            if u in seen:
                return seen[u]
            seen[u] = True
            if self.decoded(u) == i:
                r = True
            elif u.op == "param" or u.op in ("elem", "mu", "muvar", "wid",
                                             "fresh", "ref", "unbound",
                                             "absent"):
                r = False
            elif self.part(u) is not None:
                r = False
            else:
                r = all(go(c) for c in children(u))
            seen[u] = r
            return r
        return go(t) and any(self.decoded(u) == i for u in subterms(t))

    def uses(self, t, i):
        return any(self.decoded(u) == i or self.part(u) == i
                   for u in subterms(t))


def strip_json(t):
    """the text a json.loads was applied to"""
    t = strip_text(t)
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].args[0] == "json.loads" and t.args[1]:
        return t.args[1][0]
    return None


def none_alg(fs, is_alg):
    """do the facts say that the algorithm is absent, null or 'none'?"""
    for a, p in fs:
        if a.op == "cmp" and p:
            op, x, y = a.args
            for u, v in ((x, y), (y, x)):
                if op in ("is", "eq") and u is NONE and is_alg(v):
                    return True
                if op == "eq" and const_in(u, ("none", b"none", "NONE")):
                    if is_alg(v):
                        return True
                    r, n = method_of(v)
                    if n in ("lower", "upper", "casefold") and is_alg(r):
                        return True
            if op == "in" and y.op == "tuple":
                r, n = method_of(x)
                z = r if n in ("lower", "casefold", "upper") else x
                if is_alg(z) and all(
                        c is NONE or const_in(c, ("none", "None", "NONE", ""))
                        for c in y.args):
                    return True
            if op == "in" and y.op == "listv" and not y.args[1]:
                if is_alg(x) and all(
                        c is NONE or const_in(c, ("none", "None", "NONE", ""))
                        for c in y.args[0]):
                    return True
        if a.op == "truthy" and not p and is_alg(a.args[0]):
            return True
    return False


def true_of(fs, pred):
    """is some term satisfying pred known to be true?"""
    for a, p in fs:
        t = strip_cmp_true(a, p)
        if t is not None and pred(t):
            return True
    return False
