"""Queries over the facts and terms produced by the abstract interpreter."""
from .terms import T, C, NONE, TRUE, FALSE, is_const, cval, subterms, children
from .terms import show
from .values import mk_cmp, fname

_flat = {}


def flat_atoms(fact):
    """every atom mentioned in a (possibly nested) fact"""
    a = fact[0]
    if a.op != "dnf":
        return frozenset([a])
    r = _flat.get(a)
    if r is None:
        s = set()
        for d in a.args[0]:
            for x in d:
                s |= flat_atoms(x)
        r = frozenset(s)
        _flat[a] = r
    return r


class Budget(Exception):
    pass


def entails(facts, goal, rel=None, budget=4000):
    """Do the facts (a conjunction, with nested disjunctions) imply the goal?

    goal(facts) decides a plain conjunction and must be monotone.  rel(atom)
    tells which atoms can matter.  Every disjunct that is compatible with the
    rest has to satisfy the goal."""
    left = [budget]

    def neg(fs, d):
        return any((a, not p) in fs for a, p in d)

    def close(fs):
        """split off the disjunctions; resolve those with one live case"""
        while True:
            ds = []
            add = None
            for f in fs:
                if f[0].op != "dnf":
                    continue
                live = [x for x in f[0].args[0] if not neg(fs, x)]
                if any(x <= fs for x in live):
                    fs = fs - {f}
                    add = frozenset()
                    break
                if not live:
                    return None, None
                if len(live) == 1:
                    fs = fs - {f}
                    add = live[0]
                    break
                ds.append((f, live))
            if add is None:
                return fs, ds
            fs = fs | add

    def go(fs, depth):
        left[0] -= 1
        if left[0] < 0:
            raise Budget()
        fs, ds = close(fs)
        if fs is None or goal(fs):
            return True
        if rel is not None:
            ds = [d for d in ds if any(rel(x) for x in flat_atoms(d[0]))]
        if not ds or depth > 40:
            return False
        # the goal is monotone: out of reach even if every case were true?
        top = set(fs)
        todo = [x for d in ds for x in d[1]]
        while todo:
            for f in todo.pop():
                if f not in top:
                    top.add(f)
                    if f[0].op == "dnf" and f[1]:
                        todo.extend(f[0].args[0])
        if not goal(frozenset(top)):
            return False
        f, live = min(ds, key=lambda d: (len(d[1]), d[0][0].id))
        rest = fs - {f}
        return all(go(rest | x, depth + 1) for x in live)
    try:
        return go(frozenset(facts), 0)
    except Budget:
        return False


def positive(facts):
    for a, p in facts:
        if a.op != "dnf":
            yield a, p


def strip_cmp_true(a, p):
    """(truthy-like atom) -> the term asserted true, or None"""
    if a.op == "truthy" and p:
        return a.args[0]
    if a.op == "done" and p:
        return a.args[0]
    if a.op == "cmp" and a.args[0] in ("is", "eq") and p:
        x, y = a.args[1], a.args[2]
        if y is TRUE:
            return x
        if x is TRUE:
            return y
    return None


def callee(t):
    """qualified name of the repository function a call term applies to"""
    if t.op == "fresh":
        t = t.args[0]
    if t.op != "call":
        return None
    f = t.args[0]
    if f.op in ("func", "class"):
        return f.args[0]
    if f.op == "bound":
        return callee(T("call", f.args[0], (), ()))
    if f.op == "static":
        return callee(T("call", f.args[0], (), ()))
    return None


def call_args(t, names):
    """arguments of a call term as a dict by parameter name"""
    if t.op == "fresh":
        t = t.args[0]
    out = {}
    for n, v in zip(names, t.args[1]):
        out[n] = v
    for k, v in t.args[2]:
        out[k] = v
    return out


def method_of(t):
    """(receiver, name) of a call on an external or unknown object"""
    if t.op == "fresh":
        t = t.args[0]
    if t.op == "call" and t.args[0].op == "attr":
        return t.args[0].args[0], t.args[0].args[1]
    return None, None


def alts_of(t):
    return t.args[0] if t.op == "alt" else (t,)


def mentions(t, pred):
    return any(pred(u) for u in subterms(t))


def strip_text(t):
    """drop encode/decode/as_bytes/as_unicode/str wrappers"""
    while True:
        if t.op == "call":
            q = callee(t)
            if q in ("jwkest.as_bytes", "jwkest.as_unicode") and t.args[1]:
                t = t.args[1][0]
                continue
            r, n = method_of(t)
            if n in ("encode", "decode", "strip") and n != "strip":
                t = r
                continue
            if t.args[0].op == "builtin" and t.args[0].args[0] in (
                    "bytes", "str", "bytearray") and t.args[1]:
                t = t.args[1][0]
                continue
        return t
