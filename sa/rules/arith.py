"""Rules about the arithmetic everything else rests on: the group law of the
elliptic curves (jwkest.elliptic) and the multiplication of GCM's field.

Formulas are compared as rational functions of the coordinates (a reduction
mod n is the identity there), case distinctions by the polynomial the path
found to be zero or not.  Scalar multiplications are unrolled for fixed
scalars over symbolic points, and the nest of additions and doublings they
return is read as a multiple of the points."""
from ..terms import T, C, NONE, TRUE, FALSE, is_const, cval, show, subterms
from ..query import callee, alts_of, strip_cmp_true
from ..runs import run, param
from ..report import parallel
from ..project import AnalysisBroken
from .token import intc
from .kernels import ext_is

EL = "jwkest.elliptic."
FORMULAS = tuple(EL + x for x in (
    "addf", "doublef", "add", "neg", "curve_q", "element", "to_projective",
    "from_projective"))
SCALAR = ("mulp", "muladdp", "mulf", "muladdf", "mul", "_signed_bin", "_gbd")


class Unknown(Exception):
    """not an expression this normal form covers"""


# -- polynomials: {monomial: coefficient}, monomial = sorted names ---------------
def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        c = out.get(m, 0) + k * c
        if c:
            out[m] = c
        else:
            out.pop(m, None)
    return out


def pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            c = out.get(m, 0) + c1 * c2
            if c:
                out[m] = c
            else:
                out.pop(m, None)
    return out


def ppow(a, k):
    out = {(): 1}
    for _ in range(k):
        out = pmul(out, a)
    return out


def V(*names):
    return {tuple(sorted(names)): 1}


def K(c):
    return {(): c} if c else {}


class Frac(object):
    """numerator over denominator"""

    def __init__(self, num, den=None):
        self.num = num
        self.den = den if den is not None else {(): 1}

    def __add__(self, o):
        if self.den == o.den:
            return Frac(padd(self.num, o.num), self.den)
        return Frac(padd(pmul(self.num, o.den), pmul(o.num, self.den)),
                    pmul(self.den, o.den))

    def __neg__(self):
        return Frac(padd({}, self.num, -1), self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Frac(pmul(self.num, o.num), pmul(self.den, o.den))

    def over(self, o):
        return Frac(pmul(self.num, o.den), pmul(self.den, o.num))

    def zero(self, curve=()):
        return not oncurve(self.num, curve)

    def same(self, o, curve=()):
        return (self - o).zero(curve)


def oncurve(p, curve):
    """p with the squares of the ordinates replaced by the curve equation;
    curve: {ordinate: polynomial of its square}"""
    for y, sq in dict(curve).items():
        while any(m.count(y) > 1 for m in p):
            out = {}
            for m, c in p.items():
                k = m.count(y) // 2
                rest = tuple(x for x in m if x != y) + (y,) * (
                    m.count(y) % 2)
                out = padd(out, pmul({tuple(sorted(rest)): c}, ppow(sq, k)))
            p = out
    return p


class Field(object):
    """terms as rational functions over GF(n)"""

    def __init__(self, n, leaf):
        self.n = n
        self.leaf = leaf       # term -> polynomial or None
        self.memo = {}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        if t is self.n:
            return Frac({})
        p = self.leaf(t)
        if p is not None:
            return Frac(p)
        v = intc(t)
        if v is not None:
            return Frac(K(v))
        if t.op == "un" and t.args[0] == "USub":
            return -self.of(t.args[1])
        if t.op == "un" and t.args[0] == "UAdd":
            return self.of(t.args[1])
        if t.op == "bin":
            op, a, b = t.args
            if op == "%" and b is self.n:
                return self.of(a)
            if op == "+":
                return self.of(a) + self.of(b)
            if op == "-":
                return self.of(a) - self.of(b)
            if op == "*":
                return self.of(a) * self.of(b)
            if op == "**" and intc(b) is not None and 0 <= intc(b) < 9:
                return self.power(a, intc(b))
            if op == "<<" and intc(b) is not None and 0 <= intc(b) < 9:
                return self.of(a) * Frac(K(1 << intc(b)))
        if t.op == "call":
            a = t.args[1]
            if callee(t) == EL + "inv" and len(a) == 2 and a[1] is self.n:
                return Frac(K(1)).over(self.of(a[0]))
            if ext_is(t.args[0], "Cryptodome.Util.number.inverse") and \
                    len(a) == 2 and a[1] is self.n:
                return Frac(K(1)).over(self.of(a[0]))
            if builtin(t, "pow") and len(a) == 3 and a[2] is self.n:
                k = intc(a[1])
                if k == -1:
                    return Frac(K(1)).over(self.of(a[0]))
                if k is not None and 0 <= k < 9:
                    return self.power(a[0], k)
                if minus(a[1], self.n, 2):
                    return Frac(K(1)).over(self.of(a[0]))
            if builtin(t, "pow") and len(a) == 2 and \
                    intc(a[1]) in range(9):
                return self.power(a[0], intc(a[1]))
        if t.op == "item" and intc(t.args[1]) == 1 and builtin(
                t.args[0], "divmod") and t.args[0].args[1][1] is self.n:
            return self.of(t.args[0].args[1][0])
        raise Unknown(t)

    def power(self, t, k):
        x = self.of(t)
        return Frac(ppow(x.num, k), ppow(x.den, k))

    def reduced(self, t):
        """t is the residue of something, in 0 .. n-1"""
        if t.op == "bin" and t.args[0] == "%" and t.args[2] is self.n:
            return True
        if t.op == "call" and builtin(t, "pow") and len(t.args[1]) == 3:
            return t.args[1][2] is self.n
        return t.op == "item" and intc(t.args[1]) == 1 and builtin(
            t.args[0], "divmod") and t.args[0].args[1][1] is self.n or \
            intc(t) == 0

    def test(self, fact):
        """(polynomial, is it zero) the fact decides, or None"""
        a, p = fact
        try:
            if a.op == "truthy":
                z = not p
                t = a.args[0]
                if self.reduced(t):
                    return self.of(t), z
                if t.op == "bin" and t.args[0] in ("-", "^") and \
                        self.reduced(t.args[1]) and self.reduced(t.args[2]):
                    return self.of(t.args[1]) - self.of(t.args[2]), z
            if a.op == "cmp" and a.args[0] == "eq":
                x, y = a.args[1:]
                if self.reduced(x) and self.reduced(y):
                    return self.of(x) - self.of(y), p
        except Unknown:
            pass
        return None


def builtin(t, name):
    return t.op == "call" and t.args[0].op == "builtin" and \
        t.args[0].args[0] == name


def minus(t, n, k):
    return t.op == "bin" and t.args[0] == "-" and t.args[1] is n and \
        intc(t.args[2]) == k


# -- points ------------------------------------------------------------------------
def point(i, projective):
    s = str(i)
    xs = ("x", "y") + (("z", "zs", "zc") if projective else ())
    return T("tuple", *[param(x + s) for x in xs])


def leaf(t):
    if t.op != "param":
        return None
    s = t.args[0]
    if s[:2] == "zs":
        return V("z" + s[2:], "z" + s[2:])
    if s[:2] == "zc":
        return V(*["z" + s[2:]] * 3)
    if s in ("p", "q") or s[:1] in "xyz":
        return V(s)
    return None


def affine(i, projective):
    s = str(i)
    x, y, z = V("x" + s), V("y" + s), V("z" + s)
    if not projective:
        return Frac(x), Frac(y)
    return Frac(x, ppow(z, 2)), Frac(y, ppow(z, 3))


def curve(projective, *pts):
    """y^2 = x^3 - p x z^4 - q z^6 of the given points"""
    out = {}
    for i in pts:
        x, z = V("x%s" % i), V("z%s" % i) if projective else K(1)
        out["y%s" % i] = padd(padd(ppow(x, 3), pmul(
            V("p"), pmul(x, ppow(z, 4))), -1), pmul(V("q"), ppow(z, 6)), -1)
    return out


def twice(P):
    x, y = P
    lam = (Frac(K(3)) * x * x - Frac(V("p"))).over(Frac(K(2)) * y)
    x3 = lam * lam - Frac(K(2)) * x
    return x3, lam * (x - x3) - y


def plus(P, Q):
    lam = (P[1] - Q[1]).over(P[0] - Q[0])
    x3 = lam * lam - P[0] - Q[0]
    return x3, lam * (P[0] - x3) - P[1]


def value(F, t, projective):
    """the affine point a result stands for, and its Z"""
    if t.op != "tuple" or len(t.args) != (5 if projective else 2):
        raise Unknown(t)
    c = [F.of(x) for x in t.args]
    if not projective:
        return (c[0], c[1]), None
    if not (c[3].same(c[2] * c[2]) and c[4].same(c[2] * c[2] * c[2])):
        return None, c[2]
    if c[2].zero():
        return None, c[2]
    return (c[0].over(c[2] * c[2]), c[1].over(c[2] * c[2] * c[2])), c[2]


def is_point(F, t, projective, want, cv, units):
    got, z = value(F, t, projective)
    if got is None or not all(g.same(w, cv) for g, w in zip(got, want)):
        return False
    return z is None or unit(z, units)


def unit(z, units):
    """a product of powers of things that are not zero here"""
    if len(z.den) != 1:
        return False
    todo = [(K(1), 0, 0)]
    seen = 0
    while todo and seen < 3000:
        p, i, d = todo.pop()
        seen += 1
        if proportional(p, z.num):
            return True
        for j in range(i, len(units)):
            if d < 6:
                todo.append((pmul(p, units[j]), j, d + 1))
    return False


def proportional(a, b):
    """equal up to a factor that is a unit in every GF(n): +-2^i 3^j"""
    if set(a) != set(b) or not a:
        return False
    m = next(iter(a))
    if any(a[k] * b[m] != a[m] * b[k] for k in a):
        return False
    for c in (a[m], b[m]):
        c = abs(c)
        for f in (2, 3):
            while c % f == 0:
                c //= f
    x, y = abs(a[m]), abs(b[m])
    while x % 2 == 0:
        x //= 2
    while y % 2 == 0:
        y //= 2
    while x % 3 == 0:
        x //= 3
    while y % 3 == 0:
        y //= 3
    return x == y


def differ(projective):
    """the polynomials that are zero where the abscissas agree, where the
    points are opposite, and where they are equal"""
    if projective:
        a, b = pmul(V("x1"), V("z2", "z2")), pmul(V("x2"), V("z1", "z1"))
        c, d = pmul(V("y1"), V(*["z2"] * 3)), pmul(V("y2"), V(*["z1"] * 3))
    else:
        a, b, c, d = V("x1"), V("x2"), V("y1"), V("y2")
    return padd(a, b, -1), padd(c, d), padd(c, d, -1)


def formulas(W, rep):
    I = W.interp((), noopaque=FORMULAS)
    for name, proj in (("addf", True), ("add", False)):
        if not there(W, name):
            continue
        names = params_of(W, name, 5)
        D, S, E = differ(proj)
        for ops in ((1, 1), (1, 0), (0, 1), (0, 0)):
            pts = [point(i + 1, proj) if o else NONE
                   for i, o in enumerate(ops)]
            r = run(I, None, EL + name, [
                (names[0], param("p")), (names[1], param("q")),
                (names[2], param("n")), (names[3], pts[0]),
                (names[4], pts[1])])
            rep.stat(I)
            what = "sum of two points" if ops == (1, 1) else \
                "sum with the neutral element"
            k = 0
            for st, v in r.values():
                for t in alts_of(v):
                    k += 1
                    F = Field(param("n"), leaf)
                    if ops != (1, 1):
                        want = pts[0] if ops[0] else pts[1]
                        ob(rep, "neutral", name, what, lambda: (
                            t is want or (t.op == "tuple" and want.op ==
                                          "tuple" and is_point(
                                F, t, proj, affine(1 if ops[0] else 2, proj),
                                curve(proj, 1, 2), [V("z1"), V("z2")]))), t)
                        continue
                    ob(rep, "addition", name, what, lambda: addition(
                        F, st.facts, t, proj, D, S, E), t)
            rep.ob("addition", EL + name, k > 0, what, "no result")
    if there(W, "doublef"):
        doubling(W, rep, I)
    names = params_of(W, "neg", 2)
    for proj in (True, False, None):
        r = run(I, None, EL + "neg", [
            (names[0], NONE if proj is None else point(1, proj)),
            (names[1], param("n"))])
        rep.stat(I)
        for st, v in r.values():
            for t in alts_of(v):
                F = Field(param("n"), leaf)
                if proj is None:
                    rep.ob("opposite", EL + "neg", t is NONE,
                           "of the neutral element",
                           "not the neutral element: %s" % show(t, 4)[:200])
                    continue
                x, y = affine(1, proj)
                ob(rep, "opposite", "neg", "of a point", lambda: is_point(
                    F, t, proj, (x, -y), curve(proj, 1), [V("z1")]), t)
    conversions(W, rep, I)


def there(W, name):
    """helpers that nothing else depends on may go"""
    return EL + name in W.base().funcs


def doubling(W, rep, I):
    names = params_of(W, "doublef", 4)
    for on in (1, 0):
        r = run(I, None, EL + "doublef", [
            (names[0], param("p")), (names[1], param("q")),
            (names[2], param("n")),
            (names[3], point(1, True) if on else NONE)])
        rep.stat(I)
        for st, v in r.values():
            for t in alts_of(v):
                F = Field(param("n"), leaf)
                if on:
                    ob(rep, "doubling", "doublef", "twice a point",
                       lambda: is_point(F, t, True, twice(affine(1, True)),
                                        curve(True, 1), [V("z1"), V("y1")]),
                       t)
                else:
                    rep.ob("doubling", EL + "doublef", t is NONE,
                           "twice the neutral element",
                           "not the neutral element: %s" % show(t, 4)[:200])


def params_of(W, name, n):
    f = W.base().funcs.get(EL + name)
    if f is None:
        raise AnalysisBroken("anchor %s%s has vanished" % (EL, name))
    a = [x.arg for x in f.node.args.args]
    if len(a) < n:
        raise AnalysisBroken("%s%s takes other arguments" % (EL, name))
    return a


def ob(rep, rule, name, what, decide, t):
    """an obligation; terms outside the normal form are left undecided"""
    try:
        ok = decide()
    except Unknown as e:
        rep.note("undecided: %s%s computes %s" % (
            EL, name, show(e.args[0], 3)[:80]))
        return
    rep.ob(rule, EL + name, bool(ok), what,
           "not what the group law says: %s" % show(t, 5)[:250])


def addition(F, facts, t, proj, D, S, E):
    """the value t of P + Q fits the case the facts establish"""
    cv = curve(proj, 1, 2)
    known = {}
    for f in facts:
        r = F.test(f)
        if r is None:
            continue
        p, z = r
        for nm, q in (("D", D), ("S", S), ("E", E)):
            if p.num and proportional(p.num, q):
                known[nm] = z
    if t is NONE:
        # opposite points: same abscissa, and not the same point
        return known.get("D") is True and (
            known.get("S") is True or known.get("E") is False)
    P, Q = affine(1, proj), affine(2, proj)
    units = [V("z1"), V("z2")] if proj else []
    if known.get("D") is False:
        return is_point(F, t, proj, plus(P, Q), cv, units + [D])
    if known.get("D") is True and (known.get("S") is False or
                                   known.get("E") is True):
        return any(is_point(F, t, proj, twice(X), cv, units + [
            V("y1"), V("y2")]) for X in (P, Q))
    return False


def conversions(W, rep, I):
    a = params_of(W, "to_projective", 1)
    for on in (True, False):
        r = run(I, None, EL + "to_projective", [
            (a[0], point(1, False) if on else NONE)])
        rep.stat(I)
        for st, v in r.values():
            for t in alts_of(v):
                F = Field(param("n"), leaf)
                if not on:
                    rep.ob("conversion", EL + "to_projective", t is NONE,
                           "of the neutral element", "not the neutral "
                           "element: %s" % show(t, 4)[:200])
                    continue
                ob(rep, "conversion", "to_projective", "of a point",
                   lambda: is_point(F, t, True, affine(1, False),
                                    curve(False, 1), []), t)
    a = params_of(W, "from_projective", 2)
    for on in (True, False):
        r = run(I, None, EL + "from_projective", [
            (a[0], point(1, True) if on else NONE), (a[1], param("n"))])
        rep.stat(I)
        for st, v in r.values():
            for t in alts_of(v):
                F = Field(param("n"), leaf)
                if not on:
                    rep.ob("conversion", EL + "from_projective", t is NONE,
                           "of the neutral element", "not the neutral "
                           "element: %s" % show(t, 4)[:200])
                    continue
                ob(rep, "conversion", "from_projective", "of a point",
                   lambda: is_point(F, t, False, affine(1, True),
                                    curve(True, 1), []) and all(
                       F.reduced(x) for x in t.args), t)
    if not there(W, "curve_q"):
        return
    a = params_of(W, "curve_q", 4)
    r = run(I, None, EL + "curve_q", [
        (a[0], param("x1")), (a[1], param("y1")), (a[2], param("p")),
        (a[3], param("n"))])
    rep.stat(I)
    for st, v in r.values():
        for t in alts_of(v):
            F = Field(param("n"), leaf)
            want = padd(padd(ppow(V("x1"), 3), pmul(V("p"), V("x1")), -1),
                        V("y1", "y1"), -1)
            ob(rep, "curve-parameter", "curve_q", "of a point",
               lambda: F.of(t).same(Frac(want)), t)


# -- membership ----------------------------------------------------------------------
def element(W, rep):
    """element() is true exactly for the points of the curve, and for the
    neutral element"""
    I = W.interp((), noopaque=FORMULAS)
    a = params_of(W, "element", 4)
    eq = padd(ppow(V("y1"), 2), curve(False, 1)["y1"], -1)
    n = 0
    for on in (True, False):
        r = run(I, None, EL + "element", [
            (a[0], point(1, False) if on else NONE), (a[1], param("p")),
            (a[2], param("q")), (a[3], param("n"))])
        rep.stat(I)
        for st, v in r.values():
            for t in alts_of(v):
                n += 1
                F = Field(param("n"), leaf)
                if not on:
                    continue
                rep.ob("membership", EL + "element", decides(
                    F, st.facts, t, eq), "of a point",
                    "the answer %s is not whether the point satisfies the "
                    "curve equation" % show(t, 6)[:200])
    rep.ob("membership", EL + "element", n > 0, "result", "no answer")


def decides(F, facts, t, eq):
    """t says whether eq is zero, given the facts"""
    def about(fact):
        r = F.test(fact)
        if r is None or not r[0].num or not proportional(r[0].num, eq) or \
                not proportional(r[0].den, K(1)):
            return None
        return r[1]
    while builtin(t, "bool") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t in (TRUE, FALSE):
        return any(about(f) is (t is TRUE) for f in facts)
    pol = True
    while t.op in ("not", "un") and (t.op == "not" or t.args[0] == "Not"):
        t = t.args[-1]
        pol = not pol
    if t.op == "cmp":
        return about((t, True)) is pol
    return about((T("truthy", t), True)) is pol


# -- scalars -------------------------------------------------------------------------
ORDERS = (
    0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
    2 ** 384 - 0x389cb27e0bc8d21fa7e5f24cb74f58851313e696333ad68d,
    0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409)


def scalars(tier):
    out = list(range(0, 70 if tier == "quick" else 600))
    for n in ORDERS:
        out += [n - 1, n, n + 1, n >> 1, n // 3, n // 7 * 5]
    for k in (64, 128, 255, 256, 384, 512, 520, 521):
        out += [1 << k, (1 << k) - 1, (1 << k) + 1, (1 << k) // 3,
                (1 << k) // 5 * 3]
    x = 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95
    for i in range(6 if tier == "quick" else 60):
        x = (x * x + 0x243f6a8885a308d3 + i) % (1 << 521)
        out += [x, x >> 137, x >> 265]
    return out


def pairs(tier):
    s = scalars("quick")
    small = list(range(0, 9 if tier == "quick" else 25))
    out = [(a, b) for a in small for b in small]
    big = s[70:]
    for i, a in enumerate(big):
        out.append((a, big[(i * 7 + 3) % len(big)]))
        out.append((big[(i * 5 + 1) % len(big)] >> (i * 11 % 300), a))
        if i % 6 == 0:
            out += [(a, 0), (0, a), (1, a), (a, 2), (a, a)]
    return out


class Group(object):
    """the nest of point operations a term is, as a combination of points"""

    def __init__(self, names):
        self.names = names      # leaf term -> name
        self.memo = {}

    def of(self, t):
        stack = [t]
        while stack:
            u = stack[-1]
            if u in self.memo:
                stack.pop()
                continue
            kids = self.kids(u)
            todo = [k for k in kids if k not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[u] = self.make(u)
            stack.pop()
        return self.memo[t]

    def kids(self, t):
        if t in self.names or t is NONE:
            return ()
        q = callee(t)
        if q is not None and q.startswith(EL) and not t.args[2]:
            a = t.args[1]
            q = q[len(EL):]
            if tuple(a[:3]) == (param("p"), param("q"), param("n")):
                if q in ("addf", "add") and len(a) == 5:
                    return a[3:]
                if q == "doublef" and len(a) == 4:
                    return a[3:]
            if q in ("neg", "from_projective") and len(a) == 2 and \
                    a[1] is param("n"):
                return a[:1]
            if q == "to_projective" and len(a) == 1:
                return a
        raise Unknown(t)

    def make(self, t):
        if t is NONE:
            return {}
        if t in self.names:
            return {self.names[t]: 1}
        q = callee(t)[len(EL):]
        ks = [self.memo[k] for k in self.kids(t)]
        if q in ("addf", "add"):
            return padd(ks[0], ks[1])
        if q == "doublef":
            return padd(ks[0], ks[0])
        if q == "neg":
            return padd({}, ks[0], -1)
        return ks[0]


def space_ok(t, proj, seen):
    """every operation gets its arguments in the coordinates it works with"""
    todo = [(t, proj)]
    while todo:
        u, pr = todo.pop()
        if u is NONE or (u, pr) in seen:
            continue
        seen.add((u, pr))
        q = callee(u)
        if q is None:
            if u.op != "tuple" or (len(u.args) == 5) != pr:
                return False
            continue
        q = q[len(EL):]
        if q in ("addf", "doublef"):
            if not pr:
                return False
            todo += [(x, True) for x in u.args[1][3:]]
        elif q == "add":
            if pr:
                return False
            todo += [(x, False) for x in u.args[1][3:]]
        elif q == "neg":
            todo.append((u.args[1][0], pr))
        elif q == "to_projective":
            if not pr:
                return False
            todo.append((u.args[1][0], False))
        elif q == "from_projective":
            if pr:
                return False
            todo.append((u.args[1][0], True))
    return True


def one(W, rep, name, proj, cs):
    I = W.interp((), noopaque=[EL + x for x in SCALAR], unroll=1300)
    base = params_of(W, name, 3 + 2 * len(cs))
    pts = [point(i + 1, proj) for i in range(len(cs))]
    ps = [(base[0], param("p")), (base[1], param("q")),
          (base[2], param("n"))]
    for i, c in enumerate(cs):
        ps += [(base[3 + 2 * i], pts[i]), (base[4 + 2 * i], C(c))]
    r = run(I, None, EL + name, ps)
    rep.stat(I)
    want = dict(("P%d" % i, c) for i, c in enumerate(cs) if c)
    names = dict((t, "P%d" % i) for i, t in enumerate(pts))
    n = 0
    what = "multiple of a point" if len(cs) == 1 else "sum of two multiples"
    for st, v in r.values():
        for t in alts_of(v):
            n += 1

            def fits():
                g = Group(names).of(t)
                return g == want and space_ok(t, proj, set())
            try:
                ok = fits()
            except Unknown as e:
                rep.note("undecided: %s%s computes %s" % (
                    EL, name, show(e.args[0], 3)[:80]))
                continue
            rep.ob("scalar-multiplication", EL + name, ok, what,
                   "for the scalar%s %s the result is another combination "
                   "of the points" % ("s" * (len(cs) > 1), ", ".join(
                       hex(c) for c in cs)))
    rep.ob("scalar-multiplication", EL + name, n > 0, what, "no result for "
           "the scalar %s" % hex(cs[0]))


def multiples(W, rep):
    ss = scalars(rep.tier)
    todo = [("mulp", False, (c,)) for c in ss]
    todo += [("mulf", True, (c,)) for c in ss[:40] + ss[-6:]]
    todo += [("mul", False, (c,)) for c in ss[:20]]
    todo += [("muladdp", False, x) for x in pairs(rep.tier)]
    todo += [("muladdf", True, x) for x in pairs("quick")[::9]]

    def job(i):
        def go(r):
            for name, proj, cs in todo[i::8]:
                if name in ("mulp", "muladdp") or there(W, name):
                    one(W, r, name, proj, cs)
        return go
    return [job(i) for i in range(8)]


# -- the extended Euclidean algorithm ----------------------------------------------
class Ints(Field):
    """integer expressions as polynomials; a // b and a % b through one
    unknown quotient"""

    def _of(self, t):
        p = self.leaf(t)
        if p is not None:
            return Frac(p)
        if t.op == "bin" and t.args[0] in ("//", "%"):
            a, b = t.args[1:]
            q = V("q%d.%d" % (a.id, b.id))
            if t.args[0] == "//":
                return Frac(q)
            return Frac(padd(self.of(a).num, pmul(q, self.of(b).num), -1))
        if t.op == "item" and builtin(t.args[0], "divmod") and intc(
                t.args[1]) in (0, 1):
            a, b = t.args[0].args[1]
            return self.of(T("bin", ("//", "%")[intc(t.args[1])], a, b))
        return Field._of(self, t)


def pass_through(I, func):
    return [x for x in (I.iterations or ()) if x[1] == func]


def euclid(W, rep):
    """euclid(a, b) returns x, y, g with x a + y b = g, and g is what the
    remainders end with"""
    I = W.interp((), noopaque=[EL + "euclid"])
    a = params_of(W, "euclid", 2)
    A, B = param("a"), param("b")
    I.iterations = []
    try:
        r = run(I, None, EL + "euclid", [(a[0], A), (a[1], B)])
        its = pass_through(I, EL + "euclid")
    finally:
        I.iterations = None
    rep.stat(I)
    where = EL + "euclid"
    if not its:
        rep.note("undecided: no loop in %s" % where)
        return
    L, _, _, inits, _, _, _ = its[0]
    names = sorted(inits)

    def lf(t):
        if t is A:
            return V("A")
        if t is B:
            return V("B")
        if t.op == "muvar" and t.args[0] == L:
            return V("." + t.args[1])
        if t.op == "mu" and t.args[0] == L:
            return V("." + t.args[1])
        return None
    F = Ints(None, lf)
    try:
        start = dict((k, F.of(v).num) for k, v in inits.items()
                     if v.op != "unbound")
        steps = [dict((k, F.of(v).num) for k, v in it[4].items()
                      if k in start) for it in its if it[0] == L]
    except Unknown as e:
        rep.note("undecided: %s computes %s" % (where,
                                                show(e.args[0], 3)[:80]))
        return
    inv = set()
    for u in start:
        for v in start:
            for w in start:
                if len(set((u, v, w))) == 3 and bezout(
                        start[u], start[v], start[w]) == {}:
                    inv.add((u, v, w))
    while True:
        bad = [x for x in inv if not all(follows(s, x, inv) for s in steps)]
        if not bad:
            break
        inv -= set(bad)
    n = 0
    for st, v in r.values():
        for t in alts_of(v):
            n += 1
            ok = False
            if t.op == "tuple" and len(t.args) == 3:
                try:
                    x, y, g = [F.of(z).num for z in t.args]
                    ok = any(clear(bezout(x, y, g), s) == {}
                             for s in choices(inv))
                except Unknown as e:
                    rep.note("undecided: %s returns %s" % (
                        where, show(e.args[0], 3)[:80]))
                    continue
            rep.ob("bezout", where, ok, "coefficients",
                   "x*a + y*b = g is not kept by the loop for the values "
                   "returned, %s" % show(t, 4)[:150])
            if ok:
                gs = [m for m in F.of(t.args[2]).num]
                rep.ob("bezout", where, remainders(
                    F, its, L, start, gs, st.facts), "remainders",
                    "the last value is not the end of the sequence of "
                    "remainders of a and b")
    rep.ob("bezout", where, n > 0, "result", "no result")


def bezout(u, v, w):
    return padd(padd(pmul(u, V("A")), pmul(v, V("B"))), w, -1)


def choices(inv):
    """for each variable one relation that gives it"""
    out = [{}]
    for w in sorted(set(x[2] for x in inv)):
        out = [dict(o, **{w: x}) for o in out for x in sorted(inv)
               if x[2] == w][:64]
    return out


def clear(p, choice):
    """p with the remainders expressed by the coefficients"""
    for w, (u, v, _) in choice.items():
        e = padd(pmul(V("." + u), V("A")), pmul(V("." + v), V("B")))
        for _ in range(6):
            if not any("." + w in m for m in p):
                break
            out = {}
            for m, c in p.items():
                if "." + w in m:
                    l = list(m)
                    l.remove("." + w)
                    out = padd(out, pmul({tuple(l): c}, e))
                else:
                    out = padd(out, {m: c})
            p = out
    return p


def follows(step, x, inv):
    if not all(k in step for k in x):
        return False
    p = bezout(*[step[k] for k in x])
    return any(clear(p, s) == {} for s in choices(inv))


def remainders(F, its, L, start, gs, facts):
    """there are two variables that step (r, s) -> (s, r mod s), from a and
    b to s = 0, and the first one is what is returned"""
    for r in start:
        if gs != [("." + r,)]:
            continue
        for s in start:
            if s == r or (start[r], start[s]) not in (
                    (V("A"), V("B")), (V("B"), V("A"))):
                continue
            mr, ms = T("muvar", L, r), T("muvar", L, s)
            good = True
            for it in its:
                if it[0] != L:
                    continue
                good = good and it[4].get(r) is ms and \
                    is_rem(it[4].get(s), mr, ms)
            if good and any(ends(f, L, s) for f in facts):
                return True
    return False


def is_rem(t, a, b):
    if t is None:
        return False
    if t.op == "bin" and t.args[0] == "%":
        return t.args[1:] == (a, b)
    if t.op == "item" and intc(t.args[1]) == 1 and builtin(
            t.args[0], "divmod"):
        return t.args[0].args[1] == (a, b)
    if t.op == "bin" and t.args[0] == "-" and t.args[1] is a:
        u = t.args[2]
        return u.op == "bin" and u.args[0] == "*" and b in u.args[1:] and \
            T("bin", "//", a, b) in u.args[1:]
    return False


def ends(fact, L, s):
    """the loop left with s = 0"""
    a, p = fact
    if a.op == "dnf":
        return False
    t = a.args[-1] if a.op == "truthy" and not p else None
    if a.op == "cmp" and a.args[0] == "eq" and p:
        x, y = a.args[1:]
        t = y if intc(x) == 0 else x if intc(y) == 0 else None
    if a.op == "cmp" and a.args[0] == "lt" and not p and intc(
            a.args[1]) == 0:
        t = a.args[2]
    return t is not None and t.op in ("mu", "muvar") and \
        t.args[0] == L and t.args[1] == s


def inverse(W, rep):
    """inv(a, n) is a coefficient of a in x a + y n = 1, up to n"""
    I = W.interp((), noopaque=[EL + "inv"])
    a = params_of(W, "inv", 2)
    A, N = param("a"), param("n")
    r = run(I, None, EL + "inv", [(a[0], A), (a[1], N)])
    rep.stat(I)
    where = EL + "inv"
    for st, v in r.values():
        for t in alts_of(v):
            rep.ob("inverse", where, inverse_of(t, A, N), "result",
                   "not an inverse modulo n: %s" % show(t, 5)[:200])


def inverse_of(t, a, n, mu=None):
    if t.op == "alt":
        return all(inverse_of(x, a, n, mu) for x in t.args[0])
    if t.op == "mu":
        return inverse_of(t.args[2], a, n, mu) and all(
            inverse_of(s, a, n, t.args[:2]) for s in t.args[3])
    if t.op == "muvar":
        return mu is not None and t.args[:2] == mu
    if t.op == "bin" and t.args[0] in ("+", "-") and multiple(t.args[2], n):
        return inverse_of(t.args[1], a, n, mu)
    if t.op == "bin" and t.args[0] == "+" and multiple(t.args[1], n):
        return inverse_of(t.args[2], a, n, mu)
    if t.op == "bin" and t.args[0] == "%" and t.args[2] is n:
        return inverse_of(t.args[1], a, n, mu)
    if builtin(t, "pow") and len(t.args[1]) == 3 and t.args[1][2] is n:
        return same_residue(t.args[1][0], a, n) and (
            intc(t.args[1][1]) == -1 or minus(t.args[1][1], n, 2))
    if t.op == "call" and ext_is(
            t.args[0], "Cryptodome.Util.number.inverse"):
        return len(t.args[1]) == 2 and t.args[1][1] is n and \
            same_residue(t.args[1][0], a, n)
    if t.op == "item" and callee(t.args[0]) == EL + "euclid" and \
            len(t.args[0].args[1]) == 2:
        x, y = t.args[0].args[1]
        i = intc(t.args[1])
        return (i == 0 and y is n and same_residue(x, a, n)) or (
            i == 1 and x is n and same_residue(y, a, n))
    return False


def same_residue(x, a, n):
    return x is a or (x.op == "bin" and x.args[0] == "%" and
                      x.args[1] is a and x.args[2] is n)


def multiple(t, n):
    return t is n or (t.op == "bin" and t.args[0] == "*" and
                      n in t.args[1:])


def c31(W, rep):
    parallel(rep, multiples(W, rep) + [
        lambda r: formulas(W, r), lambda r: element(W, r),
        lambda r: euclid(W, r), lambda r: inverse(W, r)])


# -- GF(2^128) -----------------------------------------------------------------------
GF = "jwkest.aes_gcm.gf_2_128_mul"
GCM = "jwkest.aes_gcm.AES_GCM"
POLY = 0xE1 << 120


class Bits(object):
    """non-negative integers as bits, each the exclusive or of products of
    named bits"""

    def __init__(self, leaf, assign=()):
        self.leaf = leaf
        self.assign = dict(assign)      # name -> 0 or 1
        self.memo = {}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.put(self._of(t))
        return r

    def put(self, bits):
        if not self.assign:
            return bits
        out = {}
        for k, s in bits.items():
            acc = set()
            for m in s:
                if any(self.assign.get(a) == 0 for a in m):
                    continue
                acc ^= {frozenset(a for a in m if a not in self.assign)}
            if acc:
                out[k] = frozenset(acc)
        return out

    def _of(self, t):
        r = self.leaf(t)
        if r is not None:
            return r
        v = intc(t)
        if v is not None and v >= 0:
            return const_bits(v)
        if builtin(t, "int") and len(t.args[1]) == 1:
            return self.of(t.args[1][0])
        if t.op != "bin":
            raise Unknown(t)
        op, a, b = t.args
        k = intc(b)
        if op in ("<<", ">>") and k is not None and 0 <= k < 300:
            return shift(self.of(a), k if op == "<<" else -k)
        if op in ("*", "//", "%") and k is not None and k > 0 and \
                k & (k - 1) == 0:
            k = k.bit_length() - 1
            x = self.of(a)
            if op == "%":
                return dict((i, s) for i, s in x.items() if i < k)
            return shift(x, k if op == "*" else -k)
        x, y = self.of(a), self.of(b)
        if op == "^":
            return xor_bits(x, y)
        if op == "&":
            return dict((i, s) for i, s in (
                (i, mul_bits(x[i], y[i])) for i in x if i in y) if s)
        if op == "|":
            both = dict((i, mul_bits(x[i], y[i])) for i in x if i in y)
            if sum(len(s) for s in both.values()) > 20000:
                raise Unknown(t)
            return xor_bits(xor_bits(x, y), both)
        if op == "+" and not set(x) & set(y):
            return xor_bits(x, y)
        if op == "*":
            for u, w in ((x, y), (y, x)):
                if set(u) <= {0}:
                    if not u:
                        return {}
                    return dict((i, s) for i, s in (
                        (i, mul_bits(w[i], u[0])) for i in w) if s)
        raise Unknown(t)

    def test(self, fact):
        """(bit name, value) a branch condition decides"""
        a, p = fact
        t = None
        if a.op == "truthy":
            t = a.args[0]
        elif a.op == "cmp" and a.args[0] == "eq":
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if intc(y) in (0, 1):
                    t = x
                    if intc(y) == 0:
                        p = not p
        elif a.op == "cmp" and a.args[0] == "lt" and intc(a.args[1]) == 0:
            t = a.args[2]
        if t is None:
            return None
        try:
            b = self.of(t)
        except Unknown:
            return None
        if len(b) == 1:
            (k, s), = b.items()
            if len(s) == 1 and len(next(iter(s))) == 1 and (
                    k == 0 or a.op != "cmp" or a.args[0] != "eq" or
                    intc(a.args[1]) == 0 or intc(a.args[2]) == 0):
                return next(iter(next(iter(s)))), int(p)
        return None


def const_bits(v):
    return dict((i, frozenset([frozenset()])) for i in range(v.bit_length())
                if v >> i & 1)


def named_bits(name, n=128):
    return dict((i, frozenset([frozenset([(name, i)])])) for i in range(n))


def shift(x, k):
    return dict((i + k, s) for i, s in x.items() if i + k >= 0)


def xor_bits(x, y):
    out = dict(x)
    for i, s in y.items():
        s = out.get(i, frozenset()) ^ s
        if s:
            out[i] = s
        else:
            out.pop(i, None)
    return out


def mul_bits(a, b):
    if len(a) * len(b) > 50000:
        raise Unknown(NONE)
    acc = set()
    for m in a:
        for n in b:
            acc ^= {m | n}
    return frozenset(acc)


def times_a(x):
    """the field element x times a: GCM counts from the high end"""
    out = shift(x, -1)
    if 0 in x:
        out = xor_bits(out, dict((i, mul_bits(s, x[0])) for i, s in
                                 const_bits(POLY).items()))
    return out


def gf_mul(W, rep):
    f = W.base().funcs.get(GF)
    if f is None:
        raise AnalysisBroken("anchor %s has vanished" % GF)
    a = [x.arg for x in f.node.args.args]
    X, Y = param("x"), param("y")
    if straight(W, rep, a, X, Y) is None:
        if step_by_step(W, rep, a, X, Y) is None:
            rep.note("undecided: the structure of %s" % GF)


def straight(W, rep, a, X, Y):
    """all passes of the loop written out"""
    I = W.interp((), noopaque=[GF], unroll=140)
    r = run(I, None, GF, [(a[0], X), (a[1], Y)])
    rep.stat(I)

    def lf(t):
        if t is X:
            return named_bits("x")
        if t is Y:
            return named_bits("y")
        return None
    vals = [t for st, v in r.values() for t in alts_of(v)]
    if not vals or len(vals) > 4:
        return None
    try:
        B = Bits(lf)
        got = [B.of(t) for t in vals]
    except (Unknown, RecursionError):
        return None
    x = named_bits("x")
    want = {}
    for i in range(127, -1, -1):
        b = frozenset([frozenset([("y", i)])])
        want = xor_bits(want, dict((k, mul_bits(s, b))
                                   for k, s in x.items()))
        x = times_a(x)
    for g in got:
        rep.ob("field-product", GF, g == want, "product",
               "not the product in the field of GCM")
    return True


def step_by_step(W, rep, a, X, Y):
    """one pass of the loop, for any pass"""
    I = W.interp((), noopaque=[GF])
    I.iterations = []
    try:
        r = run(I, None, GF, [(a[0], X), (a[1], Y)])
        its = pass_through(I, GF)
    finally:
        I.iterations = None
    rep.stat(I)
    if not its or len(set(it[0] for it in its)) != 1:
        return None
    L, _, seq, inits, _, _, _ = its[0]
    xs = [k for k, v in inits.items() if v is X]
    ys = [k for k, v in inits.items() if v is Y]
    rs = [k for k, v in inits.items() if intc(v) == 0]
    outs = [t for st, v in r.values() for t in alts_of(v)]
    if len(xs) != 1 or len(ys) > 1 or not outs or seq is None:
        return None
    rs = [k for k in rs if all(t.op == "mu" and t.args[:2] == (L, k)
                               for t in outs)]
    if len(rs) != 1:
        return None
    mx, mr = T("muvar", L, xs[0]), T("muvar", L, rs[0])
    my = T("muvar", L, ys[0]) if ys else None
    down = T("call", T("builtin", "range"), (C(127), C(-1), C(-1)), ())

    def position(t):
        """t counts 127, 126 .. 0 over the passes"""
        if t.op == "elem":
            return t.args[1] is down or up(t.args[1], True)
        return t.op == "bin" and t.args[0] == "-" and intc(
            t.args[1]) == 127 and t.args[2].op == "elem" and up(
                t.args[2].args[1], False)

    def lf(t):
        if t is mx:
            return named_bits("x")
        if t is mr:
            return named_bits("r")
        if my is not None and t is my:
            return named_bits("y")
        if t.op == "bin" and t.args[0] == ">>" and t.args[1] is Y and \
                my is None and position(t.args[2]):
            return dict((i, frozenset([frozenset([("bit", i)])]))
                        for i in range(128))
        if t.op == "bin" and t.args[0] == "&" and my is None:
            for u, w in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if u is Y and w.op == "bin" and w.args[0] == "<<" and intc(
                        w.args[1]) == 1 and position(w.args[2]):
                    return {0: frozenset([frozenset([("bit", 0)])])}
        return None
    bit = ("bit", 0) if my is None else ("y", 127)
    if seq is not down and not up(seq, True) and not up(seq, False):
        return None
    B0 = Bits(lf)
    for it in its:
        known = dict(x for x in (B0.test(f) for f in it[5]) if x)
        try:
            B = Bits(lf, known)
            x = B.of(it[4][xs[0]])
            res = B.of(it[4][rs[0]])
            y = B.of(it[4][ys[0]]) if ys else None
        except (Unknown, KeyError):
            return None
        want = B.put(xor_bits(named_bits("r"), dict(
            (k, mul_bits(s, frozenset([frozenset([bit])])))
            for k, s in named_bits("x").items())))
        rep.ob("field-product", GF, res == want, "accumulation",
               "a pass of the loop does not add x times the bit of y")
        rep.ob("field-product", GF, x == B.put(times_a(named_bits("x"))),
               "step", "a pass of the loop does not multiply x by a")
        if ys:
            rep.ob("field-product", GF, dict(
                (k, s) for k, s in y.items() if k < 128) == B.put(dict(
                    (k, s) for k, s in shift(named_bits("y"), 1).items()
                    if k < 128)), "bits",
                "a pass of the loop does not move on to the next bit of y")
    return True


def up(t, down):
    """range(128), or its reversal"""
    if down:
        return builtin(t, "reversed") and len(t.args[1]) == 1 and \
            up(t.args[1][0], False)
    return builtin(t, "range") and tuple(
        intc(x) for x in t.args[1]) in ((128,), (0, 128), (0, 128, 1))


# -- GHASH -----------------------------------------------------------------------------
class Hash(object):
    """integers as exclusive ors of blocks multiplied by powers of H"""

    def __init__(self, key, atom):
        self.key = key
        self.atom = atom        # term -> name or None
        self.memo = {}
        self.tables = {}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        acc = frozenset()
        looked = {}
        todo = [t]
        while todo:
            u = todo.pop()
            if u.op == "bin" and u.args[0] == "^":
                todo += u.args[1:]
                continue
            v = intc(u)
            if v is not None:
                if v:
                    acc ^= {(0, const_block(v))}
                continue
            n = self.atom(u)
            if n is not None:
                acc ^= {(0, n)}
                continue
            if callee(u) == GF and len(u.args[1]) == 2:
                x, y = u.args[1]
                if self.is_h(y) or self.is_h(x):
                    acc ^= self.product(self.of(x if self.is_h(y) else y))
                    continue
            if u.op == "item" and u.args[0].op == "tuple":
                i = self.table(u.args[0])
                b = byte_of(u.args[1], i)
                if b is None:
                    raise Wrong("the table for byte %s is looked up with "
                                "something else" % i)
                looked.setdefault(b, []).append(i)
                continue
            raise Unknown(u)
        for b, which in looked.items():
            if sorted(which) != list(range(16)):
                raise Wrong("the bytes looked up are %s" % sorted(which))
            acc ^= self.product(self.of(b))
        return acc

    def product(self, s):
        return frozenset((k + 1, a) for k, a in s)

    def is_h(self, t):
        from .jwe import aes_block, ZERO16
        from .kernels import to_int
        b = to_int(t)
        b = aes_block(b, self.key) if b is not None else None
        return b is not None and is_const(b) and cval(b) == ZERO16

    def table(self, t):
        """the byte position a table of 256 products is for"""
        if t not in self.tables:
            self.tables[t] = self._table(t)
        return self.tables[t]

    def _table(self, t):
        pos = None
        if len(t.args) != 256:
            raise Wrong("a table of %d products" % len(t.args))
        for j, e in enumerate(t.args):
            if j == 0 and intc(e) == 0:
                continue
            if callee(e) != GF or len(e.args[1]) != 2:
                raise Unknown(e)
            x, y = e.args[1]
            if self.is_h(y):
                x, y = y, x
            if not self.is_h(x):
                raise Unknown(e)
            y = intc(y)
            if y is None:
                raise Unknown(e)
            if j == 1:
                pos = (y.bit_length() - 1) // 8
            if y != (0 if j == 0 else j << 8 * (pos or 0)):
                raise Wrong("entry %d of the table for byte %s is the "
                            "product with %#x" % (j, pos, y))
        return pos


class Wrong(Exception):
    pass


def const_block(v):
    return ("block",) + tuple(v.to_bytes(16, "big")) if v < 1 << 128 \
        else ("number", v)


def byte_of(t, i):
    """the number of which t is byte i"""
    if t.op == "bin" and t.args[0] == "%" and intc(t.args[2]) == 256:
        t = T("bin", "&", t.args[1], C(255))
    if t.op != "bin" or t.args[0] != "&":
        return None
    a, b = t.args[1:]
    if intc(a) == 255:
        a, b = b, a
    if intc(b) != 255:
        return None
    k = 0
    while t is not None and k < 8 * i:
        if a.op == "bin" and intc(a.args[2]) is not None and (
                a.args[0] == ">>" or a.args[0] == "//" and
                intc(a.args[2]) in (1 << s for s in range(0, 128, 8))):
            s = intc(a.args[2]) if a.args[0] == ">>" else \
                intc(a.args[2]).bit_length() - 1
            k += s
            a = a.args[1]
        else:
            return None
    while a.op == "bin" and a.args[0] in (">>", "<<") and \
            intc(a.args[2]) == 0:
        a = a.args[1]
    return a if k == 8 * i else None


def octet_list(t):
    """the octets of a byte string of known length"""
    from ..values import known_len
    if is_const(t) and isinstance(cval(t), bytes):
        return list(cval(t))
    if t.op == "cat":
        return [x for p in t.args for x in octet_list(p)]
    if t.op == "repeat" and intc(t.args[1]) is not None:
        return octet_list(t.args[0]) * intc(t.args[1])
    if builtin(t, "bytes") and len(t.args[1]) == 1 and \
            intc(t.args[1][0]) is not None:
        return [0] * intc(t.args[1][0])
    if t.op == "slice" and t.args[3] is NONE:
        lo = 0 if t.args[1] is NONE else intc(t.args[1])
        hi = None if t.args[2] is NONE else intc(t.args[2])
        if lo is not None and (hi is not None or t.args[2] is NONE):
            try:
                return octet_list(t.args[0])[lo:hi]
            except Unknown:
                if hi is None or lo < 0 or hi < 0:
                    raise
                return [(t.args[0], i) for i in range(lo, hi)]
    n = known_len(t)
    if n is None:
        raise Unknown(t)
    return [(t, i) for i in range(n)]


def blocks(data):
    data = list(data) + [0] * (-len(data) % 16)
    return [("block",) + tuple(data[i:i + 16])
            for i in range(0, len(data), 16)]


def ghash_of(aad, ct):
    s = frozenset()
    lens = const_block((8 * len(aad)) << 64 | 8 * len(ct))
    for b in blocks(aad) + blocks(ct) + [lens]:
        if any(b[1:]):
            s = s ^ {(0, b)}
        s = frozenset((k + 1, a) for k, a in s)
    return s


LENS = ((0, 0), (0, 1), (1, 0), (0, 16), (16, 0), (15, 17), (17, 15),
        (20, 33), (32, 48), (13, 100), (64, 31), (5, 160), (8, 24), (24, 8),
        (12, 36), (36, 4))


def aad_octets(n):
    return T("call", T("ext", "secrets.token_bytes"), (C(n),), ())


def gcm_hash(W, rep, la, lp):
    from .wrap import octets
    from .kernels import to_int
    from . import jwe
    from ..runs import isinst
    key, iv = param("master_key"), param("iv")
    num = T("call", T("ext", "Cryptodome.Util.number.bytes_to_long"),
            (iv,), ())
    tag = T("call", T("ext", "Cryptodome.Util.number.bytes_to_long"),
            (param("tag"),), ())
    aad = aad_octets(la) if la else C(b"")
    txt = octets(lp) if lp else C(b"")
    I = W.interp((GF,), unroll=300)
    if GCM not in I.classes:
        raise AnalysisBroken("anchor class %s has vanished" % GCM)
    what = "over %d and %d octets" % (la, lp)
    for meth in ("encrypt", "decrypt"):
        ps = [("init_value", num), ("auth_data", aad)]
        ps += [("plaintext", txt)] if meth == "encrypt" else [
            ("ciphertext", txt), ("auth_tag", tag)]
        r = run(I, GCM, meth, ps, assume=[(isinst(key, "bytes"), True)],
                ctor=[key])
        rep.stat(I)
        where = "%s.%s" % (GCM, meth)
        n = 0
        for st, v in r.values():
            for t in alts_of(v):
                n += 1
                if meth == "encrypt":
                    if t.op != "tuple" or len(t.args) != 2:
                        rep.ob("ghash", where, False, what,
                               "not a pair of ciphertext and tag")
                        continue
                    ct, sums = t.args[0], [t.args[1]]
                else:
                    ct, sums = txt, eq_facts(st.facts, tag)
                try:
                    c = octet_list(ct)
                    a = octet_list(aad)
                except Unknown as e:
                    rep.note("undecided: octets of %s" % show(e.args[0],
                                                              3)[:80])
                    continue
                if not sums:
                    rep.note("undecided: how %s compares the tag" % where)
                    continue
                ok, why = False, "no tag is computed"
                for s in sums:
                    def atom(u):
                        b = to_int(u)
                        if b is None:
                            return None
                        e = jwe.aes_block(b, key)
                        if e is not None:
                            return "pad" if first_block(e, iv) else None
                        return ("block",) + tuple(octet_list(b))
                    try:
                        got = Hash(key, atom).of(s)
                        ok = ok or got == ghash_of(a, c) ^ {(0, "pad")}
                        why = "not GHASH of the data and its lengths"
                    except Wrong as e:
                        why = e.args[0]
                    except Unknown as e:
                        rep.note("undecided: the tag is computed with %s" %
                                 show(e.args[0], 2)[:80])
                        why = None
                        break
                if why is not None:
                    rep.ob("ghash", where, ok, what, why)
        rep.ob("ghash", where, n > 0, what, "no normal exit")


def eq_facts(facts, tag):
    """the numbers the facts say the received tag is equal to"""
    from .kernels import from_int
    out = []
    for a, p in facts:
        t = strip_cmp_true(a, p)
        xs = ()
        if t is not None and t.op == "call" and ext_is(
                t.args[0], "hmac.compare_digest", "secrets.compare_digest",
                "_operator._compare_digest", "operator._compare_digest"):
            xs = t.args[1]
        elif a.op == "cmp" and a.args[0] == "eq" and p:
            xs = a.args[1:]
        if len(xs) != 2:
            continue
        xs = [(from_int(x) or (x, 0))[0] for x in xs]
        for x, y in (xs, xs[::-1]):
            if x is tag and y is not tag:
                out.append(y)
    return out


def first_block(t, iv):
    """iv || 0^31 || 1, where iv has 12 octets"""
    from . import jwe
    ops = jwe.Ops(None, lambda u: u is iv, None)
    from ..values import mk_cmp
    lens = mk_cmp("eq", T("call", T("builtin", "len"), (iv,), ()), C(12))
    return jwe.j0(t, frozenset([(lens, True)]), ops)


def c32(W, rep):
    ls = LENS if rep.tier == "quick" else tuple(
        (a, p) for a in range(0, 50) for p in range(0, 70, 3)) + LENS
    jobs = [lambda r: gf_mul(W, r)]

    def job(i):
        def go(r):
            for a, p in ls[i::7]:
                gcm_hash(W, r, a, p)
        return go
    parallel(rep, jobs + [job(i) for i in range(7)])
