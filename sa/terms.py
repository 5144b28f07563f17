"""Hash-consed value terms: the abstract values of the analysis.

A term records where a value comes from (its provenance): which parameter,
constant, call, element of a collection, or loop-carried variable.  Terms are
immutable, so a fact about a term never becomes stale.
"""


class T(object):
    __slots__ = ("op", "args", "id", "_sub", "_refs", "_ef")
    _table = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            T._n += 1
            t.id = T._n
            t._sub = None
            t._refs = None
            t._ef = None
            cls._table[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id

    def __repr__(self):
        return show(self)

    def __bool__(self):
        return True


def C(v):
    """constant"""
    if isinstance(v, tuple):
        return T("tuple", *[x if isinstance(x, T) else C(x) for x in v])
    return T("const", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ELLIPSIS = T("ellipsis")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, (tuple, frozenset)):
            for x in _nested(a):
                yield x


def _nested(a):
    for b in a:
        if isinstance(b, T):
            yield b
        elif isinstance(b, (tuple, frozenset)):
            for x in _nested(b):
                yield x


def subterms(t):
    """All sub-terms of t, t included (as a frozenset-like dict order)."""
    if t._sub is not None:
        return t._sub
    seen = {}
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen[u] = True
        if u._sub is not None:
            for s in u._sub:
                seen[s] = True
            continue
        for c in children(u):
            if c not in seen:
                stack.append(c)
    t._sub = frozenset(seen)
    return t._sub


_NOSET = frozenset()


def _collect(t, slot, ops):
    """cached frozenset of the sub-terms of t whose operator is in ops"""
    r = getattr(t, slot)
    if r is not None:
        return r
    stack = [t]
    while stack:
        u = stack[-1]
        if getattr(u, slot) is not None:
            stack.pop()
            continue
        ch = list(children(u))
        todo = [c for c in ch if getattr(c, slot) is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        sets = set(getattr(c, slot) for c in ch)
        sets.discard(_NOSET)
        if u.op in ops:
            r = frozenset([u]).union(*sets)
        elif not sets:
            r = _NOSET
        elif len(sets) == 1:
            r = sets.pop()
        else:
            r = frozenset().union(*sets)
        setattr(u, slot, r)
    return getattr(t, slot)


def refs_of(t):
    return _collect(t, "_refs", ("ref",))


def iter_terms(t):
    """the iteration-dependent sub-terms (elem, fresh) of t"""
    return _collect(t, "_ef", ("elem", "fresh"))


def contains(t, sub):
    return sub in subterms(t)


def rebuild(t, f, memo):
    """Bottom-up rewriting. f(term) -> replacement or None (before descent)."""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if not t.args:
            r = t
        else:
            na = tuple(_rb(a, f, memo) for a in t.args)
            r = t if na == t.args else smart(t.op, na)
    memo[t] = r
    return r


def _rb(a, f, memo):
    if isinstance(a, T):
        return rebuild(a, f, memo)
    if isinstance(a, tuple):
        n = tuple(_rb(x, f, memo) for x in a)
        return a if n == a else n
    if isinstance(a, frozenset):
        n = frozenset(_rb(x, f, memo) for x in a)
        return a if n == a else n
    return a


def smart(op, args):
    """Rebuild with a few local simplifications."""
    if op == "item":
        from .values import mk_item_static
        return mk_item_static(args[0], args[1])
    if op == "cmp":
        from .values import mk_cmp
        return mk_cmp(*args)
    return T(op, *args)


def subst(t, mapping):
    if not mapping:
        return t
    keys = set(mapping)
    if not (keys & subterms(t)):
        return t
    return rebuild(t, lambda u: mapping.get(u) if u in mapping else
                   (u if not (keys & subterms(u)) else None), {})


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset, list)):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.args
    d = depth - 1
    if op == "const":
        return repr(a[1])
    if op == "param":
        return a[0]
    if op == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "item":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "ext":
        return a[0]
    if op == "call":
        s = [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return "%s(%s)" % (show(a[0], d), ", ".join(s))
    if op == "func":
        return a[0]
    if op == "class":
        return a[0]
    if op == "elem":
        return "elem<%s>" % show(a[1], d)
    if op == "mu":
        return "loopvar<%s>" % (a[1],)
    if op == "muvar":
        return "loopvar<%s>" % (a[1],)
    if op == "ref":
        return "obj#%s" % (a[0],)
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
