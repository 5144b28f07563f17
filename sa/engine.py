"""Abstract interpreter over Python syntax trees.

Forward, interprocedural (callees analysed in the context of the caller, so a
helper function is transparent), flow-sensitive, with partitioning of the
abstract states by the guard facts that hold.  Values are provenance terms,
loops are widened to one arbitrary iteration plus loop-carried variables.
Nothing of the analysed program is executed and no solver is involved: a guard
is only ever compared with the guards already recorded.
"""
import ast
import builtins as _b

from .terms import (T, C, NONE, TRUE, FALSE, is_const, cval, subterms,
                    children, rebuild, show, refs_of, iter_terms)
from .values import (kind, known_len, mk_item_static, mk_cmp, cat, call, attr, ext,
                     fname)
from .state import (ABSENT, UNBOUND, HObj, State, signature, reduce_facts,
                    eqc_of, frame_info, reach, FD)
from .project import AnalysisBroken, enclosing_function
from . import models

ANYEXC = T("exc", "*", ())
ADT = "jwkest"


def sources(t):
    """what a widened value is computed from: the atoms of the term and the
    names of the calls in it"""
    out = set()
    for u in subterms(t):
        if u.op == "wid":
            out |= u.args[2]
        elif u.op == "call":
            n = fname(u.args[0])
            if n:
                out.add(T("callof", n))
        elif not is_const(u) and not any(True for _ in children(u)):
            out.add(u)
    return frozenset(out)


STRUCT = ("tuple", "dictv", "listv", "objv", "func", "class", "bound",
          "static", "partial", "ref", "builtin", "mod", "exc", "map")


def plain_alt(t):
    """alternatives that are all plain data: handled as one opaque value"""
    return not any(x.op in STRUCT or x in (NONE, TRUE, FALSE)
                   for x in t.args[0])


class Frame(object):
    __slots__ = ("fid", "mod", "cls", "func", "ctx", "locals", "closure",
                 "node", "base_ids", "selfref", "globals")

    def __init__(self, fid, mod, cls, func, ctx, locs, closure, node,
                 base_ids=frozenset(), selfref=None, globs=frozenset()):
        self.fid = fid
        self.mod = mod
        self.cls = cls
        self.func = func
        self.ctx = ctx
        self.locals = locs
        self.closure = closure
        self.node = node
        self.base_ids = base_ids
        self.selfref = selfref
        self.globals = globs


class Event(object):
    __slots__ = ("kind", "node", "func", "data", "facts", "stack", "loops",
                 "root")

    def __init__(self, kind, node, func, data, facts, stack, loops,
                 root=None):
        self.root = root
        self.kind = kind
        self.node = node
        self.func = func
        self.data = data
        self.facts = facts
        self.stack = stack
        self.loops = loops


class FuncDef(object):
    __slots__ = ("qual", "node", "mod", "cls", "isgen", "locals", "globals",
                 "nonlocals")


def scan_locals(node):
    names, globs, nonl = set(), set(), set()
    isgen = [False]

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                names.add(n.id)

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.ClassDef):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            rec(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add(a.asname or a.name.split(".")[0])
        if isinstance(n, ast.Global):
            globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for ch in ast.iter_child_nodes(n):
            rec(ch)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        rec(s)
    a = getattr(node, "args", None)
    if a is not None and isinstance(node, (ast.FunctionDef, ast.Lambda)):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    names -= globs
    names -= nonl
    return names, globs, nonl, isgen[0]


def assigned_in(stmts):
    names = set()

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add(a.asname or a.name.split(".")[0])
        for ch in ast.iter_child_nodes(n):
            rec(ch)
    for s in stmts:
        rec(s)
    return names


class _Append(ast.AST):
    _fields = ("elt", "key", "acc", "how")


class Out(object):
    __slots__ = ("norm", "ret", "brk", "cont")

    def __init__(self):
        self.norm = []
        self.ret = []
        self.brk = []
        self.cont = []


class Interp(object):
    MAXSTATES = 24
    UNROLL = 4
    UNROLL_NAMES = 4
    UNROLL_WHILE = 0
    UNROLL_COMP = 16
    JOIN_RETURNS = 6
    MAXDEPTH = 40

    def __init__(self, project, opaque=(), optimize=False, entry_mods=None,
                 record=True):
        self.project = project
        self.opaque = opaque if callable(opaque) else (
            lambda q, s=frozenset(opaque): q in s)
        self.optimize = optimize        # True: assert statements are no-ops
        self.record = record
        self.funcs = {}
        self.classes = {}               # qual -> dict(node, mod, bases)
        self.events = []
        self._ev_seen = set()
        self.sinks = [[]]
        self.try_depth = 0
        self.loopstack = []
        self.unrolled = []
        self.stack = []
        self._sites = {}
        self._ctxs = {}
        self._nodeidx = {}
        self.mu_info = {}
        self.forall_info = {}
        self.stats = {"functions": set(), "statements": 0, "calls": 0,
                      "states": 0, "merged": 0, "capped": 0, "opaque": set(),
                      "unsupported": set()}
        self._comp_cache = {}
        self._gmemo = {}
        self._smemo = {}
        self.captured = set()
        self.done_ops = frozenset()
        self.total_attrs = frozenset()
        self.base_heap = {}
        self.base_ids = frozenset()
        self.mod_loading = []
        self.loaded = set()
        self.init = State({}, {}, frozenset(), {}, {})
        self._mro_cache = {}
        for m in sorted(project.modules):
            self.load_module(m)
        self.load_events = self.events
        self.events = []
        self._ev_seen = set()
        self.module_sinks = self.sinks[0]
        self.sinks = [[]]
        # freeze the module state
        self.base_ids = frozenset(self.init.heap)
        self.base_heap = self.init.heap
        State.base_frames = self.init.frames
        State.base_heap = self.init.heap

    # -- identifiers -------------------------------------------------------
    def nodeidx(self, node):
        k = id(node)
        v = self._nodeidx.get(k)
        if v is None:
            v = (len(self._nodeidx), node)   # keep the node alive
            self._nodeidx[k] = v
        return v[0]

    def intern(self, key):
        v = self._ctxs.get(key)
        if v is None:
            v = len(self._ctxs) + 1
            self._ctxs[key] = v
        return v

    def site(self, node, fr):
        return self.intern(("site", self.nodeidx(node), fr.ctx))

    def alloc(self, st, obj, node, fr):
        s = self.site(node, fr)
        n = 0
        while True:
            rid = self.intern(("rid", s, n))
            if rid not in st.heap:
                break
            n += 1
        return st.set_obj(rid, obj), T("ref", rid)

    def obj(self, st, ref):
        return st.heap.get(ref.args[0])

    def gen(self):
        return tuple(self.loopstack)

    # -- events ------------------------------------------------------------
    def event(self, kind, node, fr, data, st):
        if not self.record:
            return
        key = (kind, id(node), data, st.facts, tuple(x[0] for x in self.stack))
        if key in self._ev_seen:
            return
        self._ev_seen.add(key)
        root = None
        if kind in ("mutate", "setitem", "delitem", "setattr") and \
                data[0].op == "ref":
            # the unknown value that this object stands for
            for t, r in st.mat.items():
                if r is data[0]:
                    root = t
                    break
        self.events.append(Event(kind, node, fr.func, data, st.facts,
                                 tuple(self.stack),
                                 tuple(self.loopstack + self.unrolled), root))

    # -- modules -----------------------------------------------------------
    def load_module(self, name):
        if name in self.loaded or name not in self.project.modules:
            return
        self.loaded.add(name)
        mod = self.project.modules[name]
        fid = ("mod", name)
        fr = Frame(fid, name, None, "<module>", self.intern(("mod", name)),
                   None, None, mod.tree)
        st = self.init.set_frame(fid, {"__name__": C(name),
                                       "__file__": C("?")})
        # registering early makes circular imports resolvable
        self.init = st
        for s in mod.tree.body:
            self.init = self._exec_mod_stmt(s, self.init, fr)

    def _exec_mod_stmt(self, s, st, fr):
        mark = len(self.sinks[-1])
        out = self.exec_block([s], [st], fr)
        if not out.norm:
            raise AnalysisBroken("module %s: statement at line %d has no "
                                 "normal exit" % (fr.mod, s.lineno))
        if len(out.norm) > 1:
            # module-level non-determinism: keep the first, it is reported
            self.stats["unsupported"].add(
                "module %s line %d: %d states" % (fr.mod, s.lineno,
                                                  len(out.norm)))
        del self.sinks[-1][mark:]
        r = out.norm[0]
        r = r.clone()
        r.facts = frozenset()
        r.eqc = {}
        return r

    def import_module(self, name, st):
        """-> (st, term)"""
        if name in self.project.modules:
            if name not in self.loaded:
                self.load_module(name)
                st = self._rebase(st)
            return st, T("mod", name)
        return st, ext(name)

    def _rebase(self, st):
        # module state may have grown while st was held
        frames = dict(self.init.frames)
        frames.update(st.frames)
        for k, v in self.init.frames.items():
            if k not in st.frames:
                frames[k] = v
        heap = dict(self.init.heap)
        heap.update(st.heap)
        s = st.clone()
        s.frames = frames
        s.heap = heap
        return s

    # -- classes -----------------------------------------------------------
    def mro(self, q):
        if q in self._mro_cache:
            return self._mro_cache[q]
        c = self.classes.get(q)
        if c is None:
            r = [q]
            if q.startswith("builtins."):
                k = getattr(_b, q[9:], None)
                if isinstance(k, type):
                    r = ["builtins." + x.__name__ for x in k.__mro__]
            return r
        seqs = [list(self.mro(b)) for b in c["bases"]] + [list(c["bases"])]
        out = [q]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    s.pop(0)
        self._mro_cache[q] = out
        return out

    def is_sub(self, a, b):
        return b in self.mro(a)

    def class_attr(self, st, q, name, after=None):
        m = self.mro(q)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for k in m:
            fr = st.frames.get(("cls", k))
            if fr is not None and name in fr:
                return fr[name]
        return None

    def has_ext_base(self, q):
        return any(k not in self.classes and k != "builtins.object"
                   for k in self.mro(q))

    def is_exc_class(self, q):
        return "builtins.BaseException" in self.mro(q) or \
            any(k.startswith("ext:") and k.endswith(("Error", "Exception"))
                for k in self.mro(q))

    # -- facts -------------------------------------------------------------
    def const_of(self, st, t):
        if t.op == "const":
            return t
        return st.eqc.get(t)

    def assume(self, st, t, pol):
        """the state in which `t` is truthy (pol) / falsy, or None"""
        while t.op == "not":
            t, pol = t.args[0], not pol
        if t.op == "truthy":
            t = t.args[0]
        if t.op == "const":
            return st if bool(cval(t)) == pol else None
        if t.op == "tuple":
            return st if bool(t.args) == pol else None
        if t.op == "cmp":
            return self.assume_cmp(st, t, pol)
        if t.op == "isinst":
            return self.assume_isinst(st, t, pol)
        if t.op in ("func", "class", "bound", "builtin", "mod", "objv"):
            return st if pol else None
        c = st.eqc.get(t)
        if c is not None:
            return st if bool(cval(c)) == pol else None
        n = known_len(t)
        if n is not None:
            return st if bool(n) == pol else None
        if t.op == "cat":
            if any(is_const(x) and cval(x) for x in t.args):
                return st if pol else None
        if t.op in ("mu",):
            r = self.assume_mu(st, t, pol)
            if r is not NotImplemented:
                return r
        a = T("truthy", t)
        if (a, pol) in st.facts:
            return st
        if (a, not pol) in st.facts:
            return None
        if pol:
            if (mk_cmp("is", t, NONE), True) in st.facts:
                return None
        r = self.learn(st, a, pol)
        if r is None:
            return None
        if pol:
            # not None
            n = mk_cmp("is", t, NONE)
            if (n, False) not in r.facts and n.op == "cmp":
                r = self.learn(r, n, False)
                if r is None:
                    return None
            if t.op == "call":
                r = self.assume_call_true(r, t)
        return r

    def assume_call_true(self, st, t):
        return st

    def mu_alts(self, t):
        alts = []
        for x in (t.args[2],) + tuple(sorted(t.args[3])):
            if x.op == "muvar" and x.args[:2] == t.args[:2]:
                continue
            if x not in alts:
                alts.append(x)
        return alts

    def assume_mu(self, st, t, pol):
        """loop-carried flags: every alternative value is a constant"""
        alts = self.mu_alts(t)
        if not all(is_const(a) for a in alts):
            return NotImplemented
        ok = [a for a in alts if bool(cval(a)) == pol]
        if not ok:
            return None
        st = self.learn(st, T("truthy", t), pol)
        if st is None:
            return None
        if len(ok) == 1:
            st = self._mu_is(st, t, ok[0])
        return st

    def _mu_is(self, st, t, c):
        """t (all-constant alternatives) is known to be constant c"""
        st = st.set_eqc(t, c)
        info = self.mu_info.get(t)
        if info is None:
            return st
        it, steps = info
        init = t.args[2]
        if init is c and all(s is c or s.op == "muvar" or True for s, _ in steps):
            # never left the initial value for good: if every step either
            # keeps the variable or sets another constant that is never set
            # back, then all iterations kept it.
            back = any(s is c for s, _ in steps)
            if not back:
                keep = frozenset(f for s, f in steps if s.op == "muvar")
                if keep and it is not None:
                    st = st.add_fact(T("forall", t.args[0], it, keep), True)
        elif init is not c:
            # left the initial value: some iteration set it
            setf = [f for s, f in steps if s is c]
            if setf:
                common = frozenset.intersection(*setf)
                for a, p in common:
                    st = st.add_fact(a, p)
        return st

    # -- disjunctive facts -------------------------------------------------
    def learn(self, st, atom, pol):
        """record a fact and use it to narrow the recorded disjunctions"""
        if (atom, pol) in st.facts:
            return st
        st = st.add_fact(atom, pol)
        ds = [a for a, p in st.facts if a.op == "dnf"]
        if not ds:
            return st
        ec = None
        if pol and atom.op == "cmp" and atom.args[0] in ("eq", "is"):
            x, y = atom.args[1], atom.args[2]
            if is_const(y) and not is_const(x):
                ec = (atom.args[0], x, y)
            elif is_const(x) and not is_const(y):
                ec = (atom.args[0], y, x)
        neg = (atom, not pol)
        for d in ds:
            if (d, True) not in st.facts:
                continue
            keep = []
            triv = False
            touched = False
            for f in d.args[0]:
                if neg in f:
                    touched = True
                    continue
                if ec is not None and self.const_conflict(f, ec):
                    touched = True
                    continue
                if (atom, pol) in f:
                    f = f - {(atom, pol)}
                    touched = True
                    if not f:
                        triv = True
                        break
                keep.append(f)
            if not touched:
                continue
            st = st.clone()
            st.facts = st.facts - {(d, True)}
            if triv:
                continue
            if not keep:
                return None
            if len(keep) == 1:
                st = self.assume_all(st, keep[0])
                if st is None:
                    return None
                continue
            st.facts = st.facts | {(T("dnf", frozenset(keep)), True)}
        return st

    def const_conflict(self, facts, ec):
        op, x, y = ec
        for a, p in facts:
            if p and a.op == "cmp" and a.args[0] in ("eq", "is"):
                u, v = a.args[1], a.args[2]
                if u is x and is_const(v) and v is not y and \
                        a.args[0] == op and cval(v) != cval(y):
                    return True
                if v is x and is_const(u) and u is not y and \
                        a.args[0] == op and cval(u) != cval(y):
                    return True
            elif a.op == "truthy" and a.args[0] is x and \
                    bool(cval(y)) != p:
                return True
        return False

    def assume_dnf(self, st, d):
        """add a disjunction, simplified against the facts of st"""
        if (d, True) in st.facts:
            return st
        keep = []
        for f in d.args[0]:
            if any((a, not p) in st.facts for a, p in f):
                continue
            f = f - st.facts
            if not f:
                return st
            keep.append(f)
        if not keep:
            return None
        if len(keep) == 1:
            return self.assume_all(st, keep[0])
        return st.add_fact(T("dnf", frozenset(keep)), True)

    def resolve(self, st, t):
        """replace terms known to be constants (shallow)"""
        c = st.eqc.get(t)
        return c if c is not None else t

    def assume_cmp(self, st, t, pol):
        op, a, b = t.args
        ra, rb = self.resolve(st, a), self.resolve(st, b)
        if ra is not a or rb is not b:
            f = mk_cmp(op, ra, rb)
            if f.op == "const":
                return st if bool(cval(f)) == pol else None
        if (t, pol) in st.facts:
            return st
        if (t, not pol) in st.facts:
            return None
        if op == "is":
            # identity with a singleton constant
            e = T("cmp", "eq", *sorted((a, b)))
            if pol and (e, False) in st.facts:
                return None
            for x, y in ((a, b), (b, a)):
                if is_const(y) and pol:
                    tr = T("truthy", x)
                    if (tr, not bool(cval(y))) in st.facts:
                        return None
        if op == "eq" and pol:
            e = T("cmp", "is", *sorted((a, b)))
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    tr = T("truthy", x)
                    if (tr, not bool(cval(y))) in st.facts:
                        return None
        if op == "eq" and pol and (is_const(a) or is_const(b)):
            x, c = (a, b) if is_const(b) else (b, a)
            if x.op == "mu":
                alts = self.mu_alts(x)
                if all(is_const(y) for y in alts) and c not in alts:
                    return None
        if op in ("is", "eq") and pol and (is_const(a) or is_const(b)):
            x, c = (a, b) if is_const(b) else (b, a)
            if x.op == "mu":
                alts = self.mu_alts(x)
                if all(is_const(y) for y in alts):
                    if c not in alts:
                        return None
                    st = self._mu_is(st, x, c)
            s = self.learn(st, t, True)
            if s is None:
                return None
            s = s.set_eqc(x, c)
            # re-check the facts that mention x
            for fa, fp in st.facts:
                if fa.op in ("cmp", "truthy", "isinst") and x in subterms(fa):
                    v = self.fold_with(fa, x, c)
                    if v is not None and v != fp:
                        return None
            if c is TRUE and op == "is":
                s = self.learn(s, T("truthy", x), True)
                if s is None:
                    return None
                if x.op == "call":
                    s = self.assume_call_true(s, x)
            return s
        if op == "in" and pol:
            if b.op == "tuple" and len(b.args) == 1:
                return self.assume(st, mk_cmp("eq", a, b.args[0]), True)
            if b.op == "tuple" and all(is_const(x) for x in b.args):
                poss = [x for x in b.args
                        if (mk_cmp("eq", a, x), False) not in st.facts and
                        mk_cmp("eq", a, x) is not FALSE]
                if not poss:
                    return None
        if op == "in" and not pol and b.op == "tuple" and len(b.args) <= 12:
            s = st
            for x in b.args:
                e = mk_cmp("eq", a, x)
                s = self.assume(s, e, False)
                if s is None:
                    return None
            return self.learn(s, t, False)
        return self.learn(st, t, pol)

    def fold_with(self, fa, x, c):
        """truth value of atom fa after x := c, or None when unknown"""
        def f(u):
            return c if u is x else None
        try:
            r = rebuild(fa, f, {})
        except RecursionError:
            return None
        r = self.fold(r)
        if r.op == "truthy":
            r = r.args[0]
        if r.op == "const":
            return bool(cval(r))
        return None

    def fold(self, t):
        """constant-fold pure string methods etc. inside a term"""
        def f(u):
            return None
        memo = {}

        def go(u):
            if u in memo:
                return memo[u]
            r = u
            if u.args:
                na = []
                for a in u.args:
                    if isinstance(a, T):
                        na.append(go(a))
                    elif isinstance(a, tuple):
                        na.append(tuple(go(z) if isinstance(z, T) else
                                        (tuple(go(w) if isinstance(w, T) else w
                                               for w in z)
                                         if isinstance(z, tuple) else z)
                                        for z in a))
                    else:
                        na.append(a)
                na = tuple(na)
                if u.op == "cmp":
                    r = mk_cmp(*na)
                elif u.op == "item":
                    r = mk_item_static(*na)
                elif u.op == "call" and na[0].op == "attr" and \
                        is_const(na[0].args[0]) and not na[2] and \
                        all(is_const(z) for z in na[1]):
                    v = models.pure_const_method(
                        cval(na[0].args[0]), na[0].args[1],
                        [cval(z) for z in na[1]])
                    r = v if v is not None else T(u.op, *na)
                elif u.op == "isinst" and is_const(na[0]) and \
                        na[1].op == "builtin":
                    k = getattr(_b, na[1].args[0], None)
                    r = C(isinstance(cval(na[0]), k)) if isinstance(k, type) \
                        else T(u.op, *na)
                elif u.op in ("truthy",) and is_const(na[0]):
                    r = C(bool(cval(na[0])))
                elif u.op == "slice" and all(is_const(z) for z in na):
                    try:
                        r = C(cval(na[0])[cval(na[1]):cval(na[2]):cval(na[3])])
                    except Exception:
                        r = T(u.op, *na)
                else:
                    r = T(u.op, *na)
            memo[u] = r
            return r
        try:
            return go(t)
        except RecursionError:
            return t

    KINDCLS = {"str": "str", "bytes": "bytes", "int": "int", "bool": "bool",
               "none": "NoneType", "tuple": "tuple", "list": "list",
               "dict": "dict", "callable": "function", "iter": "iterator",
               "float": "float"}

    def isinst_static(self, st, v, cls):
        """True/False/None(unknown) for isinstance(v, cls)"""
        if v.op == "ref":
            o = self.obj(st, v)
            if o is not None:
                if o.kind == "inst":
                    if o.cls is None:
                        return None
                    if cls.op == "class":
                        return self.is_sub(o.cls, cls.args[0])
                    if cls.op == "builtin":
                        return ("builtins." + cls.args[0]) in self.mro(o.cls)
                    return False if not self.has_ext_base(o.cls) else None
                if o.kind in ("dict", "list", "set"):
                    if o.base is not None and o.kind == "dict" and \
                            kind(o.base) is None and False:
                        return None
                    return cls.op == "builtin" and cls.args[0] == o.kind
                return None
        if v.op == "objv" and cls.op == "class":
            return self.is_sub(v.args[0], cls.args[0])
        k = kind(v)
        if k is None:
            c = st.eqc.get(v)
            if c is not None:
                k = kind(c)
        if k is not None and k in self.KINDCLS:
            if cls.op == "builtin":
                n = cls.args[0]
                if n == "object":
                    return True
                have = self.KINDCLS[k]
                if have == n:
                    return True
                if n == "int" and have == "bool":
                    return True
                if have in ("function", "iterator"):
                    return False if n in ("str", "bytes", "int", "dict",
                                          "list", "tuple") else None
                return False
            if cls.op == "class":
                return False
            return None
        if v.op == "call" and v.args[0].op == "class" and cls.op == "class":
            return self.is_sub(v.args[0].args[0], cls.args[0])
        if v.op == "call" and v.args[0].op == "class" and cls.op == "builtin":
            return False
        return None

    def assume_isinst(self, st, t, pol):
        v, cls = t.args
        s = self.isinst_static(st, v, cls)
        if s is not None:
            return st if s == pol else None
        if (t, pol) in st.facts:
            return st
        if (t, not pol) in st.facts:
            return None
        basic = ("str", "bytes", "int", "dict", "list", "tuple", "float")
        for a, p in st.facts:
            if a.op == "isinst" and a.args[0] is v and p:
                o = a.args[1]
                if o.op == "builtin" and cls.op == "builtin" and \
                        o.args[0] in basic and cls.args[0] in basic:
                    return None if pol else st
                if o.op != cls.op and "builtin" in (o.op, cls.op) and \
                        (o.op == "class" or cls.op == "class"):
                    return None if pol else st
                if o.op == "class" and cls.op == "class":
                    if self.is_sub(o.args[0], cls.args[0]):
                        return st if pol else None
        return self.learn(st, t, pol)

    # -- merging -----------------------------------------------------------
    def merge(self, states, fr, cap=None):
        if len(states) <= 1:
            return states
        r = self.merge_pairs([(s, ()) for s in states], fr, cap)
        return [s for s, _ in r]

    def merge_vals(self, pairs, fr, cap=None):
        if len(pairs) <= 1:
            return pairs
        r = self.merge_pairs([(s, (v,)) for s, v in pairs], fr, cap)
        return [(s, e[0]) for s, e in r]

    def merge_pairs(self, pairs, fr, cap=None):
        self.stats["states"] = max(self.stats["states"], len(pairs))
        base = fr.base_ids if fr is not None else frozenset()
        groups = {}
        order = []
        for s, e in pairs:
            k = signature(s, e, base, self.base_heap)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, e))
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            s = g[0][0].clone()
            s.facts, s.eqc = self.join_facts([x for x, _ in g])
            self.stats["merged"] += len(g) - 1
            out.append((s, g[0][1]))
        cap = cap or self.MAXSTATES
        if len(out) > cap:
            out = self.widen_states(out, cap)
        return out

    MAXDNF = 160

    def join_facts(self, states):
        """the disjunction of the fact sets of several states"""
        fs = reduce_facts([s.facts for s in states])
        if len(fs) == 1:
            for s in states:
                if s.facts == fs[0]:
                    return s.facts, s.eqc
            return fs[0], eqc_of(fs[0])
        common = frozenset.intersection(*fs)
        facts = common
        if len(fs) <= self.MAXDNF:
            facts = common | {(T("dnf", frozenset(f - common for f in fs)),
                               True)}
        else:
            self.stats["capped"] += 1
        eqc = dict(states[0].eqc)
        for s in states[1:]:
            eqc = dict((k, v) for k, v in eqc.items() if s.eqc.get(k) is v)
        eqc.update(eqc_of(common))
        return facts, eqc

    def widen_states(self, pairs, cap):
        """too many partitions: join those that differ only in data values
        and container contents (differing values become alternatives)"""
        self.stats["widened"] = self.stats.get("widened", 0) + 1
        groups = {}
        order = []
        bh, bf = self.base_heap, self.init.frames

        def hard(v):
            # values that decide control flow or identity stay partitioned
            if refs_of(v) or v.op in ("bound", "func", "class", "tuple",
                                      "static", "partial", "unbound"):
                return v
            if v in (NONE, TRUE, FALSE):
                return v
            if v.op == "exc":
                return T("exck", v.args[0])
            return None
        for s, e in pairs:
            env = []
            for fid, f in s.frames.items():
                if bf.get(fid) is f:
                    continue
                env.append((fid, frozenset((k, hard(v))
                                           for k, v in f.items())))
            shape = frozenset(
                (rid, o.kind if o.kind in ("list", "set", "dict", "inst")
                 else o.sig()) for rid, o in s.heap.items()
                if bh.get(rid) is not o)
            k = (frozenset(env), shape, frozenset(s.mat.items()),
                 tuple(hard(v) for v in e))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, e))
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            r = self.join_group(g)
            if r is None:
                out.extend(g)
            else:
                out.append(r)
        return out

    def alts(self, vs):
        u = []
        if vs[0].op == "exc" and all(v.op == "exc" for v in vs):
            a0 = vs[0].args
            n = min(len(v.args[1]) for v in vs)
            return T("exc", a0[0], tuple(
                self.alts([v.args[1][i] for v in vs]) for i in range(n)))
        for v in vs:
            for x in (v.args[0] if v.op == "alt" else (v,)):
                if x not in u:
                    u.append(x)
        return u[0] if len(u) == 1 else T("alt", frozenset(u))

    def join_group(self, g):
        sts = [x[0] for x in g]
        s = sts[0].clone()
        s.facts, s.eqc = self.join_facts(sts)
        common = frozenset.intersection(*[x.facts for x in sts])
        diffs = [x.facts - common for x in sts]
        frames = dict(s.frames)
        for fid, f in s.frames.items():
            fs = [x.frames.get(fid) for x in sts]
            if all(y is f for y in fs):
                continue
            nf = FD(f)
            for k in f:
                vs = [y[k] for y in fs]
                if any(v is not vs[0] for v in vs):
                    nf[k] = self.alts(vs)
            frames[fid] = nf
        heap = dict(s.heap)
        rids = set()
        for x in sts:
            rids |= set(x.heap)
        for rid in sorted(rids, key=str):
            objs = [x.heap.get(rid) for x in sts]
            have = [o for o in objs if o is not None]
            if len(have) < len(objs):
                heap[rid] = have[0]
                if all(o.sig() == have[0].sig() for o in have):
                    continue
                j = self.join_objs(have, [d for o, d in zip(objs, diffs)
                                          if o is not None])
                if j is None:
                    return None
                heap[rid] = j
                continue
            if all(o is objs[0] or o.sig() == objs[0].sig() for o in objs):
                continue
            j = self.join_objs(objs, diffs)
            if j is None:
                return None
            heap[rid] = j
        s.frames = frames
        s.heap = heap
        e = tuple(self.alts([x[1][i] for x in g])
                  for i in range(len(g[0][1])))
        return s, e

    # -- freezing ----------------------------------------------------------
    def freeze(self, st, t, depth=5, seen=()):
        """replace heap references inside t by snapshots of their content"""
        if not refs_of(t):
            return t

        def f(u):
            if u.op != "ref":
                return None
            return self.snapshot(st, u, depth, seen)
        return rebuild(t, f, {})

    def snapshot(self, st, ref, depth, seen):
        rid = ref.args[0]
        o = st.heap.get(rid)
        if o is None or depth <= 0 or rid in seen:
            return T("opaqueref", rid)
        seen = seen + (rid,)

        def fz(x):
            return self.freeze(st, x, depth - 1, seen)
        if o.kind == "dict":
            ents = tuple((k, fz(v)) for k, v in o.fields.items()
                         if v is not ABSENT or o.summ or
                         o.base is not None)
            summ = tuple((fz(k), fz(v)) for k, v, _ in o.summ)
            return T("dictv", ents, summ,
                     fz(o.base) if o.base is not None else NONE)
        if o.kind in ("list", "set"):
            if o.open and not o.items and o.mapseq and \
                    o.mapseq[0] is o.mapseq[1]:
                return fz(o.mapseq[2])
            tail = tuple(fz(v) for v, _ in o.summ)
            if o.open and o.mapseq:
                tail = (T("map", *[fz(x) for x in o.mapseq]),)
            elif o.open and not tail:
                tail = (T("nothing"),)
            v = T("listv", tuple(fz(x) for x in o.items), tail)
            if o.term is not None and o.term.op == "sliceobj":
                # some of the elements only
                v = T("slice", v, *o.term.args)
            return v
        if o.kind == "ext":
            return fz(o.term)
        if o.kind == "inst":
            fl = tuple((k, fz(v)) for k, v in sorted(o.fields.items()))
            if o.cls is None:
                return T("objb", fz(o.base), fl)
            return T("objv", o.cls, rid, fl)
        return T("opaqueref", rid)

    def thaw(self, st, t, node, fr):
        """a heap object for a snapshot term (copy semantics)"""
        r = st.mat.get(t)
        if r is not None:
            return st, r
        if t.op == "dictv":
            ob = HObj("dict", fields=dict(t.args[0]),
                      summ=tuple((k, v, frozenset()) for k, v in t.args[1]),
                      base=None if t.args[2] is NONE else t.args[2])
        elif t.op == "listv":
            ob = HObj("list", items=t.args[0],
                      summ=tuple((v, frozenset()) for v in t.args[1]
                                 if v.op not in ("map", "nothing")),
                      open=bool(t.args[1]))
            for v in t.args[1]:
                if v.op == "map":
                    ob = ob.rep(mapseq=v.args,
                                summ=((v.args[1], frozenset()),))
        elif t.op == "objv":
            ob = HObj("inst", cls=t.args[0], fields=dict(t.args[2]))
        else:
            return st, t
        st, ref = self.alloc(st, ob, node, fr)
        return st.set_mat(t, ref), ref

    def materialise(self, st, t, how, node, fr):
        """give an unknown container a heap object so that it can be written"""
        r = st.mat.get(t)
        if r is not None:
            return st, r
        if t.op in ("dictv", "listv", "objv"):
            return self.thaw(st, t, node, fr)
        if how == "dict":
            ob = HObj("dict", base=t)
        elif how == "list":
            e = T("elem", self.site(node, fr), t, ("*",))
            ob = HObj("list", open=True, summ=((e, frozenset()),),
                      mapseq=(e, e, t))
        elif how == "ext":
            ob = HObj("ext", term=t)
        else:
            ob = HObj("inst", cls=None, base=t)
        st, ref = self.alloc(st, ob, node, fr)
        return st.set_mat(t, ref), ref

    def norm(self, st, t):
        if t.op == "ref":
            return t
        r = st.mat.get(t)
        return r if r is not None else t

    # -- raising -----------------------------------------------------------
    def raise_(self, st, exc):
        self.sinks[-1].append((st, exc))

    TABLE = 64          # longer tables are looked up, not taken apart
    iterations = None   # collects passes through loop bodies, if a list
    marker = None       # callee term -> class of the exception it may raise

    def may_raise(self, st):
        if self.try_depth > 0:
            self.sinks[-1].append((st, ANYEXC))

    def exc_class(self, exc):
        return exc.args[0]

    def exc_match(self, exc, h):
        """does the handler class term h catch exc: True/False/None"""
        if h.op == "tuple":
            rs = [self.exc_match(exc, x) for x in h.args]
            if any(r is True for r in rs):
                return True
            if any(r is None for r in rs):
                return None
            return False
        if h.op == "class":
            hq = h.args[0]
        elif h.op == "builtin":
            hq = "builtins." + h.args[0]
            k = getattr(_b, h.args[0], None)
            if isinstance(k, type):
                hq = "builtins." + k.__name__
        elif h.op == "ext":
            hq = "ext:" + h.args[0]
        else:
            return None
        q = exc.args[0]
        if q == "*":
            if hq in ("builtins.Exception", "builtins.BaseException"):
                return True
            return None
        if hq in self.mro(q):
            return True
        if q.startswith("ext:"):
            if hq in ("builtins.Exception", "builtins.BaseException"):
                return True
            return None
        return False

    # ======================================================================
    # statements
    # ======================================================================
    def exec_block(self, stmts, states, fr):
        out = Out()
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                self.exec_stmt(s, st, fr, out, nxt)
            if len(nxt) > 1:
                nxt = self.merge(nxt, fr)
            cur = nxt
        out.norm = cur
        return out

    def exec_stmt(self, s, st, fr, out, nxt):
        self.stats["statements"] += 1
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.stats["unsupported"].add(type(s).__name__)
            nxt.append(st)
            return
        m(s, st, fr, out, nxt)

    def x_Pass(self, s, st, fr, out, nxt):
        nxt.append(st)

    def x_Expr(self, s, st, fr, out, nxt):
        if isinstance(s.value, ast.Constant):
            nxt.append(st)
            return
        for st2, _ in self.ev(s.value, st, fr):
            nxt.append(st2)

    def x__Append(self, s, st, fr, out, nxt):
        for st2, v in self.ev(s.elt, st, fr):
            if s.how == "dict":
                for st3, k in self.ev(s.key, st2, fr):
                    ref = st3.frames[fr.fid]["$acc"]
                    nxt.extend(self.dict_set(st3, ref, k, v))
            else:
                ref = st2.frames[fr.fid]["$acc"]
                nxt.append(self.list_append(st2, ref, v))

    def x_Return(self, s, st, fr, out, nxt):
        if s.value is None:
            out.ret.append((st, NONE))
            return
        for st2, v in self.ev(s.value, st, fr):
            out.ret.append((st2, v))

    def x_Assign(self, s, st, fr, out, nxt):
        for st2, v in self.ev(s.value, st, fr):
            sts = [st2]
            for t in s.targets:
                n = []
                for x in sts:
                    n.extend(self.assign(t, v, x, fr))
                sts = n
            nxt.extend(sts)

    def x_AnnAssign(self, s, st, fr, out, nxt):
        if s.value is None:
            nxt.append(st)
            return
        for st2, v in self.ev(s.value, st, fr):
            nxt.extend(self.assign(s.target, v, st2, fr))

    def x_AugAssign(self, s, st, fr, out, nxt):
        load = ast.copy_location(_as_load(s.target), s)
        for st2, cur in self.ev(load, st, fr):
            for st3, v in self.ev(s.value, st2, fr):
                cur2 = self.norm(st3, cur)
                if cur2.op == "ref" and self.obj(st3, cur2).kind == "list" \
                        and isinstance(s.op, ast.Add):
                    for st4 in self.list_extend(st3, cur2, v, s, fr):
                        nxt.append(st4)
                    continue
                for st4, r in self.binop(s.op, cur, v, st3, s, fr):
                    nxt.extend(self.assign(s.target, r, st4, fr))

    def x_If(self, s, st, fr, out, nxt):
        ts, fs = [], []
        for st2, b in self.cond(s.test, st, fr):
            (ts if b else fs).append(st2)
        ts = self.merge(ts, fr)
        fs = self.merge(fs, fr)
        for sts, body in ((ts, s.body), (fs, s.orelse)):
            if not sts:
                continue
            o = self.exec_block(body, sts, fr)
            nxt.extend(o.norm)
            out.ret.extend(o.ret)
            out.brk.extend(o.brk)
            out.cont.extend(o.cont)

    def x_Assert(self, s, st, fr, out, nxt):
        self.event("assert", s, fr, (), st)
        if self.optimize:
            nxt.append(st)
            return
        for st2, b in self.cond(s.test, st, fr):
            if b:
                nxt.append(st2)
            else:
                args = ()
                self.raise_(st2, T("exc", "builtins.AssertionError", args))

    def x_Raise(self, s, st, fr, out, nxt):
        if s.exc is None:
            e = self.lookup_var(st, fr, "$exc")
            self.raise_(st, e if e is not None and e.op == "exc" else ANYEXC)
            return
        for st2, v in self.ev(s.exc, st, fr):
            if v.op == "class":
                v = T("exc", v.args[0], ())
            elif v.op == "builtin":
                v = T("exc", "builtins." + v.args[0], ())
            elif v.op == "ext":
                v = T("exc", "ext:" + v.args[0], ())
            elif v.op != "exc":
                v2 = self.norm(st2, v)
                o = self.obj(st2, v2) if v2.op == "ref" else None
                if o is not None and o.kind == "inst" and o.cls:
                    v = T("exc", o.cls, (self.freeze(st2, v2),))
                elif v.op == "call" and v.args[0].op == "ext":
                    v = T("exc", "ext:" + v.args[0].args[0], v.args[1])
                else:
                    v = ANYEXC
            self.event("raise", s, fr, (v,), st2)
            self.raise_(st2, v)

    def x_Try(self, s, st, fr, out, nxt):
        has_handlers = bool(s.handlers) or bool(s.finalbody)
        self.sinks.append([])
        if has_handlers:
            self.try_depth += 1
        try:
            o = self.exec_block(s.body, [st], fr)
        finally:
            if has_handlers:
                self.try_depth -= 1
            raised = self.sinks.pop()
        if s.finalbody:
            # everything from here on still passes through finally
            self.sinks.append([])
            self.try_depth += 1
        res = Out()
        res.ret.extend(o.ret)
        res.brk.extend(o.brk)
        res.cont.extend(o.cont)
        if s.orelse and o.norm:
            o2 = self.exec_block(s.orelse, o.norm, fr)
            res.norm.extend(o2.norm)
            res.ret.extend(o2.ret)
            res.brk.extend(o2.brk)
            res.cont.extend(o2.cont)
        else:
            res.norm.extend(o.norm)
        if raised:
            raised = self.merge_vals(raised, fr)
        for h in s.handlers:
            if not raised:
                break
            caught, rest = [], []
            for rs, exc in raised:
                if h.type is None:
                    caught.append((rs, exc))
                    continue
                hts = self.ev(h.type, rs, fr)
                for rs2, ht in hts[:1]:
                    r = self.exc_match(exc, self.freeze_seq(rs2, ht))
                    if r is True:
                        caught.append((rs2, exc))
                    elif r is False:
                        rest.append((rs2, exc))
                    else:
                        caught.append((rs2, exc))
                        rest.append((rs2, exc))
            entry = []
            for cs, exc in caught:
                cs = cs.set_var(fr.fid, "$exc", exc)
                if h.name:
                    cs = cs.set_var(fr.fid, h.name, exc)
                entry.append(cs)
            entry = self.merge(entry, fr)
            if entry:
                nsunk = len(self.sinks[-1])
                o3 = self.exec_block(h.body, entry, fr)
                how = frozenset(
                    k for k, v in (("norm", o3.norm), ("ret", o3.ret),
                                   ("brk", o3.brk), ("cont", o3.cont),
                                   ("raise", self.sinks[-1][nsunk:])) if v)
                for cs, exc in caught:
                    self.event("handled", h if h.body else s, fr,
                               (exc, how), cs)

                def clean(x):
                    x = x.del_var(fr.fid, "$exc")
                    if h.name:
                        x = x.del_var(fr.fid, h.name)
                    return x
                res.norm.extend(clean(x) for x in o3.norm)
                res.ret.extend((clean(x), v) for x, v in o3.ret)
                res.brk.extend(clean(x) for x in o3.brk)
                res.cont.extend(clean(x) for x in o3.cont)
            raised = rest
        if s.finalbody:
            self.try_depth -= 1
            raised = raised + self.sinks.pop()
            fin = Out()

            def runfin(sts):
                of = self.exec_block(s.finalbody, sts, fr)
                fin.ret.extend(of.ret)
                fin.brk.extend(of.brk)
                fin.cont.extend(of.cont)
                return of.norm
            if res.norm:
                res.norm = runfin(self.merge(res.norm, fr))
            nret = []
            for x, v in res.ret:
                x = x.set_var(fr.fid, "$ret", v)
                for y in runfin([x]):
                    nret.append((y, v))
            res.ret = nret
            if res.brk:
                res.brk = runfin(res.brk)
            if res.cont:
                res.cont = runfin(res.cont)
            for rs, exc in raised:
                for y in runfin([rs]):
                    self.raise_(y, exc)
            res.ret.extend(fin.ret)
            res.brk.extend(fin.brk)
            res.cont.extend(fin.cont)
        else:
            for rs, exc in raised:
                self.raise_(rs, exc)
        nxt.extend(self.merge(res.norm, fr))
        out.ret.extend(res.ret)
        out.brk.extend(res.brk)
        out.cont.extend(res.cont)

    x_TryStar = x_Try

    def freeze_seq(self, st, t):
        t = self.norm(st, t)
        if t.op == "ref":
            o = self.obj(st, t)
            if o.kind in ("list", "set") and not o.open:
                return T("tuple", *o.items)
        return t

    def x_With(self, s, st, fr, out, nxt):
        sts = [st]
        for item in s.items:
            n = []
            for x in sts:
                for x2, v in self.ev(item.context_expr, x, fr):
                    if item.optional_vars is not None:
                        n.extend(self.assign(item.optional_vars, v, x2, fr))
                    else:
                        n.append(x2)
            sts = n
        # contextlib.suppress(X): the exceptions listed are swallowed
        sup = None
        for item in s.items:
            e = item.context_expr
            if isinstance(e, ast.Call) and _dotted(e.func).endswith("suppress"):
                sup = e
        if sup is not None:
            h = ast.ExceptHandler(
                type=ast.Tuple(elts=list(sup.args), ctx=ast.Load()),
                name=None, body=[ast.Pass()])
            t = ast.Try(body=s.body, handlers=[h], orelse=[], finalbody=[])
            ast.copy_location(t, s)
            ast.fix_missing_locations(t)
            for x in sts:
                self.x_Try(t, x, fr, out, nxt)
            return
        o = self.exec_block(s.body, sts, fr)
        nxt.extend(o.norm)
        out.ret.extend(o.ret)
        out.brk.extend(o.brk)
        out.cont.extend(o.cont)

    def x_Break(self, s, st, fr, out, nxt):
        out.brk.append(st)

    def x_Continue(self, s, st, fr, out, nxt):
        out.cont.append(st)

    def x_Global(self, s, st, fr, out, nxt):
        nxt.append(st)

    x_Nonlocal = x_Global

    def x_Delete(self, s, st, fr, out, nxt):
        sts = [st]
        for t in s.targets:
            n = []
            for x in sts:
                if isinstance(t, ast.Name):
                    n.append(x.del_var(self.scope_of(fr, t.id, x), t.id))
                elif isinstance(t, ast.Subscript):
                    for x2, b in self.ev(t.value, x, fr):
                        for x3, k in self.ev(t.slice, x2, fr):
                            x3, ref = self.writable(x3, b, "dict", t, fr)
                            o = self.obj(x3, ref) if ref.op == "ref" else None
                            if o is not None and o.kind == "dict" and \
                                    is_const(k):
                                self.event("delitem", s, fr,
                                           (self.freeze(x3, ref), k), x3)
                                n.extend(self.dict_set(x3, ref, k, ABSENT))
                            else:
                                n.append(x3)
                else:
                    n.append(x)
            sts = n
        nxt.extend(sts)

    def x_Import(self, s, st, fr, out, nxt):
        for a in s.names:
            st, m = self.import_module(a.name, st)
            if a.asname:
                st = self.bind(st, fr, a.asname, m)
            else:
                top = a.name.split(".")[0]
                st, m = self.import_module(top, st)
                st = self.bind(st, fr, top, m)
        nxt.append(st)

    def x_ImportFrom(self, s, st, fr, out, nxt):
        name = s.module or ""
        if s.level:
            parts = fr.mod.split(".")
            if not self.project.modules.get(fr.mod) or \
                    not self.project.modules[fr.mod].is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name == "__future__":
            nxt.append(st)
            return
        st, m = self.import_module(name, st)
        for a in s.names:
            if name == "builtins" or name == "__builtin__":
                st = self.bind(st, fr, a.asname or a.name,
                               T("builtin", a.name))
                continue
            if m.op == "mod":
                if a.name == "*":
                    for k, v in st.frames.get(("mod", name), {}).items():
                        if not k.startswith("_"):
                            st = self.bind(st, fr, k, v)
                    continue
                v = st.frames.get(("mod", name), {}).get(a.name)
                if v is None:
                    sub = name + "." + a.name
                    if sub in self.project.modules:
                        st, v = self.import_module(sub, st)
                    else:
                        self.raise_(st, T("exc", "builtins.ImportError", ()))
                        return
                st = self.bind(st, fr, a.asname or a.name, v)
            else:
                st = self.bind(st, fr, a.asname or a.name,
                               models.canon_ext(name + "." + a.name))
        nxt.append(st)

    def x_FunctionDef(self, s, st, fr, out, nxt):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            n = _dotted(d)
            if n == "staticmethod":
                f = T("static", f)
            elif n == "classmethod":
                f = T("clsm", f)
            elif n == "property" or n.endswith("cached_property"):
                f = T("prop", f)
            elif n.endswith(".setter"):
                nxt.append(st)
                return
        # default values are evaluated at definition time
        st = self.eval_defaults(s, st, fr)
        nxt.append(self.bind(st, fr, s.name, f))

    x_AsyncFunctionDef = x_FunctionDef

    def eval_defaults(self, s, st, fr):
        a = s.args
        dd = []
        for d in a.defaults + [k for k in a.kw_defaults if k is not None]:
            r = self.ev(d, st, fr)
            if r:
                st, v = r[0]
                st = st.set_var(("dflt", self.nodeidx(s), fr.ctx),
                                str(self.nodeidx(d)), v)
        return st

    def make_func(self, node, fr, name):
        if fr.node is not None and isinstance(fr.node, ast.Module):
            qual = fr.mod + "." + name
        elif fr.cls and isinstance(fr.node, ast.ClassDef):
            qual = fr.cls + "." + name
        else:
            qual = "%s.%s.<locals>.%s@%d" % (fr.mod, fr.func, name,
                                             self.nodeidx(node))
        closure = fr.fid if not isinstance(fr.node, (ast.Module,
                                                     ast.ClassDef)) else None
        if isinstance(fr.node, ast.ClassDef):
            closure = fr.closure
        if qual not in self.funcs or self.funcs[qual].node is not node:
            fd = FuncDef()
            fd.qual = qual
            fd.node = node
            fd.mod = fr.mod
            fd.cls = fr.cls
            fd.locals, fd.globals, fd.nonlocals, fd.isgen = scan_locals(node)
            self.funcs[qual] = fd
        if closure is not None:
            self.captured.add(closure)
        return T("func", qual, closure, fr.ctx)

    def x_ClassDef(self, s, st, fr, out, nxt):
        qual = fr.mod + "." + s.name if isinstance(fr.node, ast.Module) else \
            fr.mod + "." + fr.func + "." + s.name
        bases = []
        for b in s.bases:
            r = self.ev(b, st, fr)
            v = r[0][1]
            if v.op == "class":
                bases.append(v.args[0])
            elif v.op == "builtin":
                bases.append("builtins." + v.args[0])
            elif v.op == "ext":
                bases.append("ext:" + v.args[0])
        if not bases:
            bases = ["builtins.object"]
        self.classes[qual] = {"node": s, "mod": fr.mod, "bases": bases}
        self._mro_cache.clear()
        fid = ("cls", qual)
        cfr = Frame(fid, fr.mod, qual, s.name,
                    self.intern(("cls", qual, fr.ctx)), None, fr.fid if not
                    isinstance(fr.node, ast.Module) else None, s)
        st = st.set_frame(fid, {})
        o = self.exec_block(s.body, [st], cfr)
        for x in o.norm[:1]:
            nxt.append(self.bind(x, fr, s.name, T("class", qual)))

    # -- loops -------------------------------------------------------------
    def x_For(self, s, st, fr, out, nxt):
        for st2, it in self.ev(s.iter, st, fr):
            for st3, seq in self.iter_values(st2, it, s, fr):
                self.run_for(s, st3, seq, fr, out, nxt)

    x_AsyncFor = x_For

    def run_for(self, s, st, seq, fr, out, nxt):
        """seq: ('exact', [values]) or ('gen', alternatives fn, iterable)"""
        unroll = self.UNROLL_COMP if getattr(s, "_comp", False) else self.UNROLL
        if seq[0] == "exact" and all(
                is_const(x) and isinstance(cval(x), str)
                for x in (y.args[0] if y.op == "tuple" and y.args else y
                          for y in seq[1])):
            unroll = self.UNROLL_NAMES
        if seq[0] == "exact" and (len(seq[1]) <= unroll):
            cur = [st]
            broke = []
            for v in seq[1]:
                o2 = Out()
                n = []
                for x in cur:
                    for y in self.assign(s.target, v, x, fr):
                        n.append(y)
                self.unrolled.append(self.site(s, fr))
                try:
                    o = self.exec_block(s.body, n, fr)
                finally:
                    self.unrolled.pop()
                out.ret.extend(o.ret)
                broke.extend(o.brk)
                cur = self.merge(o.norm + o.cont, fr)
                if not cur:
                    break
            if s.orelse and cur:
                o = self.exec_block(s.orelse, cur, fr)
                out.ret.extend(o.ret)
                out.brk.extend(o.brk)
                out.cont.extend(o.cont)
                cur = o.norm
            nxt.extend(self.merge(cur + broke, fr))
            return
        self.loop(s, st, seq, fr, out, nxt)

    def x_While(self, s, st, fr, out, nxt):
        if self.UNROLL_WHILE:
            r = self.unroll_while(s, st, fr)
            if r is not None:
                o, left = r
                out.ret.extend(o.ret)
                nxt.extend(self.merge(left + o.brk, fr))
                return
        self.loop(s, st, None, fr, out, nxt)

    def unroll_while(self, s, st, fr):
        """iterations of a loop whose condition is decided every time"""
        mark = len(self.sinks[-1])
        res = Out()
        cur = [st]
        left = []
        for i in range(self.UNROLL_WHILE):
            go = []
            for x in cur:
                bs = list(self.cond(s.test, x, fr))
                if len(set(bool(b) for _, b in bs)) > 1:
                    del self.sinks[-1][mark:]
                    return None
                for y, b in bs:
                    (go if b else left).append(y)
            if not go:
                if s.orelse and left:
                    o = self.exec_block(s.orelse, left, fr)
                    res.ret.extend(o.ret)
                    left = o.norm
                return res, left
            o = self.exec_block(s.body, go, fr)
            res.ret.extend(o.ret)
            res.brk.extend(o.brk)
            cur = self.merge(o.norm + o.cont, fr)
            if not cur:
                return res, left
        del self.sinks[-1][mark:]
        return None

    def loop(self, s, st, seq, fr, out, nxt):
        L = self.site(s, fr)
        names = assigned_in(s.body)
        if isinstance(s, ast.For):
            names |= assigned_in([s.target])
        else:
            names |= assigned_in([ast.Expr(s.test)])
        fdef = None
        g = set()
        own = [n for n in sorted(names)
               if fr.locals is None or n in fr.locals]
        cur = st.frames.get(fr.fid, {})
        inits = dict((n, cur.get(n, UNBOUND)) for n in own)
        fieldinits = {}       # (rid, field) -> init
        H = st
        for n in own:
            # a fresh placeholder for the value at the loop head
            H = H.set_var(fr.fid, n, T("muvar", L, n))
        base_ids = frozenset(st.heap)
        mark = len(self.sinks[-1])
        Hheap = dict(H.heap)
        itterm = None
        if seq is not None:
            itterm = self.freeze(st, seq[2]) if seq[0] == "gen" else \
                T("tuple", *[self.freeze(st, x) for x in seq[1]])
        for npass in range(6):
            del self.sinks[-1][mark:]
            self.loopstack.append(L)
            self.sinks.append([])
            try:
                ex, body = [], []
                if seq is None:
                    for x, b in self.cond(s.test, H, fr):
                        (body if b else ex).append(x)
                else:
                    for x, v in self.elements(H, seq, s, fr, L):
                        body.extend(self.assign(s.target, v, x, fr))
                    ex = [H]
                body = self.merge(body, fr)
                o = self.exec_block(s.body, body, fr) if body else Out()
            finally:
                self.loopstack.pop()
                sunk = self.sinks.pop()
            ends = o.norm + o.cont
            back = self.merge(ends, fr)
            if npass == 0:
                first_back = back
            changed = False
            newheap = dict(H.heap)
            for b in back:
                for rid, ob in b.heap.items():
                    if rid not in base_ids:
                        continue
                    ho = newheap[rid]
                    if ob is ho or ob is H.heap[rid]:
                        continue
                    no = self.widen_obj(ho, ob, H.heap[rid], b, H, L, rid,
                                        fieldinits, npass)
                    if no is not None and no.sig() != ho.sig():
                        newheap[rid] = no
                        changed = True
            if not changed:
                break
            H = H.clone()
            H.heap = newheap
        else:
            self.stats["unsupported"].add("loop not stable at %s" %
                                          self.project.where(s))
        if self.iterations is not None:
            # one pass through the body, from any state at the loop head
            for b in ends:
                bf = b.frames.get(fr.fid, {})
                self.iterations.append((L, fr.func, itterm, dict(inits), dict(
                    (n, self.freeze(b, bf[n])) for n in own if n in bf),
                    b.facts, [e for e in ex]))
        # -- close the loop-carried variables
        raw = {}
        stepfacts = {}
        hf = H.facts

        def gen_state(b, t):
            return self.generalise(self.freeze_new(b, t, base_ids), L)

        def add_step(key, b, t):
            v = gen_state(b, t)
            df = frozenset((self.generalise(a, L), p) for a, p in b.facts
                           if (a, p) not in hf)
            raw.setdefault(key, {}).setdefault(v, []).append(df)
        for b in back:
            bf = b.frames.get(fr.fid, {})
            for n in own:
                if n in bf:
                    add_step(n, b, bf[n])
            for (rid, f), init in fieldinits.items():
                ob = b.heap.get(rid)
                if ob is not None and f in ob.fields:
                    add_step((rid, f), b, ob.fields[f])
        keys = list(own) + list(fieldinits)
        allinits = dict(inits)
        allinits.update(fieldinits)
        nameof = {}
        for k in keys:
            nameof[k] = k if isinstance(k, str) else "%s.%s" % k

        def mk(k, steps):
            mv = T("muvar", L, nameof[k])
            ss = frozenset(steps)
            if ss <= frozenset([mv, allinits[k]]):
                return allinits[k]
            return T("mu", L, nameof[k], allinits[k], ss)
        mv = dict((k, T("muvar", L, nameof[k])) for k in keys)
        cur_mu = dict((k, mk(k, raw.get(k, {}))) for k in keys)
        for rnd in range(2):
            mp = {}
            for k in keys:
                mp[mv[k]] = cur_mu[k]
            nm = {}
            for k in keys:
                sub = dict((a, b) for a, b in mp.items() if a is not mv[k])
                steps = [self.subst(v, sub) for v in raw.get(k, {})]
                nm[k] = mk(k, steps)
            cur_mu = nm
        mapping = dict((mv[k], cur_mu[k]) for k in keys)
        for k in keys:
            m = cur_mu[k]
            if m.op == "mu":
                info = []
                for v, dfs in raw.get(k, {}).items():
                    common = frozenset.intersection(*dfs)
                    vv = v if v is mv[k] else self.subst(v, mapping)
                    info.append((vv, common))
                self.mu_info[m] = (itterm if itterm is not None else
                                   T("while", L), tuple(info))

        def close(x):
            return self.subst_state(x, mapping)
        # -- exits
        diffs = []
        for b in back:
            diffs.append(frozenset(
                (self.generalise(self.subst(a, mapping), L), p)
                for a, p in b.facts if (a, p) not in hf))
        fa = None
        if diffs:
            fa = T("forall", L, itterm if itterm is not None else
                   T("while", L), frozenset(diffs))
        exits = []
        for x in ex:
            y = close(x)
            if fa is not None and all(len(d) for d in diffs) and \
                    len(diffs) <= 400:
                y = y.add_fact(fa, True)
            if seq is not None:
                y = self.finish_lists(y, st, first_back, base_ids, L, itterm,
                                      hf)
            exits.append(y)
        if s.orelse and exits:
            o2 = self.exec_block(s.orelse, exits, fr)
            exits = o2.norm
            out.ret.extend(o2.ret)
            out.brk.extend(o2.brk)
            out.cont.extend(o2.cont)
        # names that are still unbound after zero iterations
        for b in o.brk:
            exits.append(close(b))
        out.ret.extend((close(x), self.subst(v, mapping)) for x, v in o.ret)
        for x, e in sunk:
            self.sinks[-1].append((close(x), self.subst(e, mapping)))
        nxt.extend(self.merge(exits, fr))

    def subst(self, t, mapping):
        ks = mapping.keys() & subterms(t)
        if not ks or all(mapping[k] is k for k in ks):
            return t

        def f(u):
            r = mapping.get(u)
            if r is not None:
                return r
            if u.op == "mu":
                # do not substitute a variable inside its own closure
                me = T("muvar", u.args[0], u.args[1])
                if me in mapping:
                    inner = dict((a, b) for a, b in mapping.items()
                                 if a is not me)
                    if inner and (inner.keys() & subterms(u)):
                        return T("mu", u.args[0], u.args[1],
                                 self.subst(u.args[2], inner),
                                 frozenset(self.subst(z, inner)
                                           for z in u.args[3]))
                    return u
            if not (ks & subterms(u)):
                return u
            return None
        return rebuild(t, f, {})

    def subst_state(self, st, mapping):
        mapping = dict((a, b) for a, b in mapping.items() if a is not b)
        if not mapping:
            return st
        memo = {}

        def f(t):
            r = memo.get(t)
            if r is None:
                r = self.subst(t, mapping)
                memo[t] = r
            return r
        r = st.map_terms(f)
        # an unbound initial value stays unbound
        return r

    def generalise(self, t, L):
        """terms of the current iteration of loop L -> of an arbitrary one"""
        if not any(L in u.args[2] for u in iter_terms(t)):
            return t
        memo = self._gmemo.setdefault(L, {})

        def f(u):
            it = iter_terms(u)
            if not it:
                return u
            if u.op == "elem" and L in u.args[2]:
                return T("elem", u.args[0], rebuild(u.args[1], f, memo),
                         ("*",))
            if u.op == "fresh" and L in u.args[2]:
                return T("fresh", rebuild(u.args[0], f, memo), u.args[1],
                         ("*",))
            return None
        return rebuild(t, f, memo)

    def specialise(self, t, tag):
        """arbitrary-iteration terms -> fresh instance named by tag"""
        if not any(u.args[2] == ("*",) for u in iter_terms(t)):
            return t
        memo = self._smemo.setdefault(tag, {})

        def f(u):
            it = iter_terms(u)
            if not it:
                return u
            if u.op in ("elem", "fresh") and u.args[2] == ("*",):
                a, b = u.args[0], u.args[1]
                if isinstance(a, T):
                    a = rebuild(a, f, memo)
                if isinstance(b, T):
                    b = rebuild(b, f, memo)
                return T(u.op, a, b, tag)
            return None
        return rebuild(t, f, memo)

    def freeze_new(self, st, t, base_ids):
        """freeze references to objects allocated inside the loop body"""
        if not any(u.args[0] not in base_ids for u in refs_of(t)):
            return t

        def f(u):
            if u.op == "ref" and u.args[0] not in base_ids:
                return self.snapshot(st, u, 5, ())
            return None
        return rebuild(t, f, {})

    def widen_obj(self, acc, ob, h, b, H, L, rid, fieldinits,
                  npass):
        """widen the loop-head object `acc` with the back-edge version `ob`"""
        base_ids = frozenset(H.heap)
        known = None
        if npass >= 2 and ob.kind in ("list", "set", "dict"):
            known = set(x for x in acc.terms())

        def g(t):
            v = self.generalise(self.freeze_new(b, t, base_ids), L)
            if known is not None and v not in known and \
                    v.op not in ("wid", "ref") and not is_const(v):
                v = T("wid", L, rid, sources(v))
            return v

        def gf(facts):
            return frozenset((self.generalise(a, L), p) for a, p in facts
                             if (a, p) not in H.facts)

        def ent(v, facts):
            v = g(v)
            return (v, frozenset() if v.op == "wid" else gf(facts))
        if ob.kind in ("list", "set"):
            n = len(h.items)
            prefix_same = ob.items[:n] == h.items
            entries = list(acc.summ)
            if not prefix_same:
                # items were rewritten: everything becomes summarised
                new = [(g(x), frozenset()) for x in ob.items + h.items]
                keepitems = ()
            else:
                new = [ent(x, b.facts) for x in ob.items[n:]]
                keepitems = acc.items
            for v, f in ob.summ:
                e = ent(v, f)
                if (v, f) not in h.summ:
                    new.append(e)
            for e in new:
                if not any(e[0] is v and f <= e[1] for v, f in entries):
                    entries = [(v, f) for v, f in entries
                               if not (v is e[0] and e[1] <= f)]
                    entries.append(e)
            if len(entries) > 40:
                byv = {}
                for v, f in entries:
                    byv[v] = byv[v] & f if v in byv else f
                entries = list(byv.items())
            return acc.rep(items=keepitems, summ=tuple(entries), open=True,
                           mapseq=acc.mapseq if (acc.open and acc.items ==
                                                 ob.items and
                                                 ob.summ == acc.summ) else None)
        if ob.kind == "dict":
            fields = dict(acc.fields)
            entries = list(acc.summ)
            for k, v in ob.fields.items():
                if k in h.fields and h.fields[k] is v:
                    continue
                if k not in h.fields and v is ABSENT:
                    continue
                e = (k, g(v) if v is not ABSENT else ABSENT, gf(b.facts))
                if e[1] is ABSENT:
                    # deleted in some iteration
                    if fields.get(k) is not None:
                        entries.append((k, fields.pop(k), frozenset()))
                    continue
                if not any(x[0] is e[0] and x[1] is e[1] and x[2] <= e[2]
                           for x in entries):
                    entries.append(e)
            for e0 in ob.summ:
                if e0 in h.summ:
                    continue
                e = (g(e0[0]), g(e0[1]), gf(e0[2]))
                if not any(x[0] is e[0] and x[1] is e[1] and x[2] <= e[2]
                           for x in entries):
                    entries = [x for x in entries
                               if not (x[0] is e[0] and x[1] is e[1] and
                                       e[2] <= x[2])]
                    entries.append(e)
            if len(entries) > 60:
                byv = {}
                for k, v, f in entries:
                    byv[(k, v)] = byv[(k, v)] & f if (k, v) in byv else f
                entries = [(k, v, f) for (k, v), f in byv.items()]
            return acc.rep(fields=fields, summ=tuple(entries))
        if ob.kind == "inst":
            fields = dict(acc.fields)
            for k, v in ob.fields.items():
                if h.fields.get(k) is v:
                    continue
                mvn = T("muvar", L, "%s.%s" % (rid, k))
                if fields.get(k) is mvn:
                    continue
                if (rid, k) not in fieldinits:
                    fieldinits[(rid, k)] = h.fields.get(
                        k, T("attr", h.base, k) if h.base is not None
                        else UNBOUND)
                fields[k] = mvn
            return acc.rep(fields=fields)
        if ob.kind == "ext":
            k = "$term"
            mvn = T("muvar", L, "%s.%s" % (rid, k))
            if acc.term is mvn:
                return acc
            fieldinits[(rid, k)] = h.term
            return acc.rep(term=mvn, fields={k: mvn})
        return None

    def finish_lists(self, y, pre, back, base_ids, L, itterm, hf):
        """a list that gained exactly one element per iteration maps the
        iterated sequence element by element"""
        if itterm is None or not back:
            return y
        for rid in base_ids:
            o = pre.heap.get(rid)
            if o is None or o.kind != "list" or o.open:
                continue
            yo = y.heap.get(rid)
            if yo is None or not yo.open:
                continue
            vals = set()
            ok = True
            for b in back:
                bo = b.heap.get(rid)
                if bo.open:
                    ok = False
                    break
                extra = bo.items[len(o.items):]
                if len(extra) == 1:
                    vals.add(self.generalise(
                        self.freeze_new(b, extra[0], base_ids), L))
                else:
                    ok = False
                    break
            if not ok or not vals:
                continue
            body = vals.pop() if len(vals) == 1 else None
            if body is None or any(e[0] is not body for e in yo.summ):
                continue
            elems = [u for u in subterms(body)
                     if u.op == "elem" and u.args[2] == ("*",) and
                     u.args[1] is itterm]
            if len(elems) == 1:
                y = y.set_obj(rid, yo.rep(mapseq=(elems[0], body, itterm)))
        return y

    # -- names -------------------------------------------------------------
    def scope_of(self, fr, name, st):
        if fr.locals is None or name in fr.locals or name.startswith("$"):
            return fr.fid
        fd = self.funcs.get(fr.func)
        if name in fr.globals:
            return ("mod", fr.mod)
        f = fr.closure
        while f is not None:
            if name in st.frames.get(f, {}):
                return f
            f = st.frames.get(f, {}).get("$closure")
            f = f.args[0] if f is not None else None
        return fr.fid

    def bind(self, st, fr, name, val):
        fid = self.scope_of(fr, name, st)
        if fid[0] == "mod" if isinstance(fid, tuple) else False:
            if not isinstance(fr.node, ast.Module):
                pass
        return st.set_var(fid, name, val)

    def lookup_var(self, st, fr, name):
        d = st.frames.get(fr.fid)
        if d is not None and name in d:
            return d[name]
        f = fr.closure
        while f is not None:
            d = st.frames.get(f, {})
            if name in d:
                return d[name]
            c = d.get("$closure")
            f = c.args[0] if c is not None else None
        d = st.frames.get(("mod", fr.mod), {})
        if name in d:
            return d[name]
        if hasattr(_b, name) or name in ("unicode", "long", "basestring",
                                         "xrange", "unichr"):
            return T("builtin", name)
        return None

    def assign(self, target, v, st, fr):
        """-> list of states"""
        if isinstance(target, ast.Name):
            return [self.bind(st, fr, target.id, v)]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, fr)
        if isinstance(target, (ast.Tuple, ast.List)):
            return self.unpack(target.elts, v, st, fr, target)
        if isinstance(target, ast.Attribute):
            res = []
            for st2, b in self.ev(target.value, st, fr):
                res.extend(self.set_attr(st2, b, target.attr, v, target, fr))
            return res
        if isinstance(target, ast.Subscript):
            res = []
            for st2, b in self.ev(target.value, st, fr):
                for st3, k in self.ev(target.slice, st2, fr):
                    res.extend(self.set_item(st3, b, k, v, target, fr))
            return res
        return [st]

    def unpack(self, elts, v, st, fr, node):
        n = len(elts)
        v = self.norm(st, v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.exact_seq(st, v)
        if seq is not None and not star:
            if len(seq) != n:
                self.raise_(st, T("exc", "builtins.ValueError", ()))
                return []
            vals = list(seq)
        elif star:
            i = star[0]
            vals = []
            for j in range(n):
                if j < i:
                    vals.append(self.item_opaque(v, C(j)))
                elif j == i:
                    vals.append(T("slice", self.freeze(st, v), C(j), C(None),
                                  C(None)))
                else:
                    vals.append(self.item_opaque(v, C(j - n)))
        else:
            vals = []
            sts = st
            if v.op == "ref":
                o = self.obj(st, v)
                if o.kind == "list" and o.open:
                    vals = None
                    acc = [(st, [])]
                    for j in range(n):
                        na = []
                        for x, l in acc:
                            for y, e in self.get_item(x, v, C(j), node, fr):
                                na.append((y, l + [e]))
                        acc = na
                    res = []
                    for x, l in acc:
                        cs = [x]
                        for e, w in zip(elts, l):
                            ns = []
                            for c in cs:
                                ns.extend(self.assign(e, w, c, fr))
                            cs = ns
                        res.extend(cs)
                    return res
            if vals is not None:
                vt = self.freeze(st, v)
                vals = [self.item_opaque(vt, C(j)) for j in range(n)]
                ln = call(T("builtin", "len"), (vt,))
                s2 = self.assume(st, mk_cmp("eq", ln, C(n)), True)
                self.may_raise(st)
                if s2 is None:
                    return []
                st = s2
        cs = [st]
        for e, w in zip(elts, vals):
            ns = []
            for c in cs:
                ns.extend(self.assign(e, w, c, fr))
            cs = ns
        return cs

    def exact_seq(self, st, v):
        """the exact element list of a sequence value, or None"""
        v = self.norm(st, v)
        if v.op == "tuple":
            return list(v.args)
        if v.op == "listv" and not v.args[1]:
            return list(v.args[0])
        if v.op == "const" and isinstance(cval(v), (str, bytes)):
            if len(cval(v)) <= 16:
                return [C(x) for x in cval(v)]
            return None
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("list", "set") and not o.open:
                return list(o.items)
            if o.kind == "dict" and o.base is None and not o.summ:
                return [k for k, w in o.fields.items() if w is not ABSENT]
        return None

    def item_opaque(self, base, key):
        return mk_item_static(base, key)

    # ======================================================================
    # expressions
    # ======================================================================
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.stats["unsupported"].add(type(e).__name__)
            return [(st, T("unknown", self.site(e, fr)))]
        return m(e, st, fr)

    def ev_list(self, exprs, st, fr):
        """evaluate left to right -> [(st, [vals])]"""
        acc = [(st, [])]
        for e in exprs:
            n = []
            for x, l in acc:
                for y, v in self.ev(e, x, fr):
                    n.append((y, l + [v]))
            acc = n
            if len(acc) > 32:
                acc = self._merge_lists(acc, fr)
        return acc

    def _merge_lists(self, acc, fr):
        r = self.merge_pairs([(s, tuple(l)) for s, l in acc], fr)
        return [(s, list(l)) for s, l in r]

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return [(st, T("ellipsis"))]
        return [(st, C(e.value))]

    def e_Name(self, e, st, fr):
        v = self.lookup_var(st, fr, e.id)
        if v is None or v is UNBOUND:
            if fr.locals is not None and e.id in fr.locals:
                self.raise_(st, T("exc", "builtins.UnboundLocalError", ()))
            else:
                self.raise_(st, T("exc", "builtins.NameError", ()))
            return []
        return [(st, v)]

    def e_JoinedStr(self, e, st, fr):
        acc = [(st, [])]
        for p in e.values:
            n = []
            for x, l in acc:
                if isinstance(p, ast.Constant):
                    n.append((x, l + [C(p.value)]))
                else:
                    for y, v in self.ev(p.value, x, fr):
                        c = self.const_of(y, v)
                        if c is not None and isinstance(cval(c), str) and \
                                p.format_spec is None and p.conversion == -1:
                            n.append((y, l + [c]))
                        else:
                            n.append((y, l + [T("fmt", self.freeze(y, v))]))
            acc = n
        return [(x, cat(l) if l else C("")) for x, l in acc]

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(s, self._tup(s, r)) for s, r in self.e_List(e, st, fr)]
        return [(s, T("tuple", *l)) for s, l in self.ev_list(e.elts, st, fr)]

    def _tup(self, st, ref):
        o = self.obj(st, ref)
        if o is not None and o.kind == "list" and not o.open:
            return T("tuple", *o.items)
        return ref

    def e_List(self, e, st, fr):
        res = []
        if any(isinstance(x, ast.Starred) for x in e.elts):
            st, ref = self.alloc(st, HObj("list"), e, fr)
            sts = [st]
            for x in e.elts:
                n = []
                for s in sts:
                    if isinstance(x, ast.Starred):
                        for s2, v in self.ev(x.value, s, fr):
                            n.extend(self.list_extend(s2, ref, v, e, fr))
                    else:
                        for s2, v in self.ev(x, s, fr):
                            n.append(self.list_append(s2, ref, v))
                sts = n
            return [(s, ref) for s in sts]
        for s, l in self.ev_list(e.elts, st, fr):
            s, ref = self.alloc(s, HObj("list", items=tuple(l)), e, fr)
            res.append((s, ref))
        return res

    def e_Set(self, e, st, fr):
        res = []
        for s, l in self.ev_list(e.elts, st, fr):
            s, ref = self.alloc(s, HObj("set", items=tuple(l)), e, fr)
            res.append((s, ref))
        return res

    def e_Dict(self, e, st, fr):
        st, ref = self.alloc(st, HObj("dict"), e, fr)
        sts = [st]
        for k, v in zip(e.keys, e.values):
            n = []
            for s in sts:
                if k is None:
                    for s2, w in self.ev(v, s, fr):
                        n.extend(self.dict_update(s2, ref, w, e, fr))
                else:
                    for s2, l in self.ev_list([k, v], s, fr):
                        n.extend(self.dict_set(s2, ref, l[0], l[1]))
            sts = n
        return [(s, ref) for s in sts]

    def e_Lambda(self, e, st, fr):
        st = self.eval_defaults(e, st, fr)
        return [(st, self.make_func(e, fr, "<lambda>"))]

    def e_IfExp(self, e, st, fr):
        res = []
        for s, b in self.cond(e.test, st, fr):
            res.extend(self.ev(e.body if b else e.orelse, s, fr))
        return res

    def e_NamedExpr(self, e, st, fr):
        res = []
        for s, v in self.ev(e.value, st, fr):
            for s2 in self.assign(e.target, v, s, fr):
                res.append((s2, v))
        return res

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        res = []
        vs = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        for s, v in vs:
            ref = s.frames.get(fr.fid, {}).get("$yield")
            if ref is not None:
                s = self.list_append(s, ref, v)
            res.append((s, NONE))
        return res

    def e_YieldFrom(self, e, st, fr):
        res = []
        for s, v in self.ev(e.value, st, fr):
            ref = s.frames.get(fr.fid, {}).get("$yield")
            if ref is not None:
                for s2 in self.list_extend(s, ref, v, e, fr):
                    res.append((s2, NONE))
            else:
                res.append((s, NONE))
        return res

    def e_FormattedValue(self, e, st, fr):
        return [(s, T("fmt", self.freeze(s, v)))
                for s, v in self.ev(e.value, st, fr)]

    # -- conditions --------------------------------------------------------
    def cond(self, e, st, fr):
        """-> [(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [st]
            res = []
            for i, v in enumerate(e.values):
                n = []
                for s in cur:
                    for s2, b in self.cond(v, s, fr):
                        if b == is_and:
                            if i == len(e.values) - 1:
                                res.append((s2, is_and))
                            else:
                                n.append(s2)
                        else:
                            res.append((s2, not is_and))
                cur = n
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.NamedExpr) or not isinstance(e, ast.Compare):
            res = []
            for s, v in self.ev(e, st, fr):
                res.extend(self.truth(s, v, e, fr))
            return res
        res = []
        for s, v in self.ev(e, st, fr):
            res.extend(self.truth(s, v, e, fr))
        return res

    def truth(self, st, v, node, fr):
        v = self.norm(st, v)
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind == "inst" and o.cls is not None:
                for m in ("__bool__", "__nonzero__", "__len__"):
                    f = self.class_attr(st, o.cls, m)
                    if f is not None:
                        res = []
                        for s, r in self.call_value(
                                T("bound", f, v), [], {}, [], st, node, fr):
                            res.extend(self.truth(s, r, node, fr))
                        return res
                return [(st, True)]
            if o.kind in ("list", "set"):
                if o.items:
                    return [(st, True)]
                if not o.open:
                    return [(st, False)]
                t = self.freeze(st, v)
                res = []
                s = self.assume(st, t, True)
                if s is not None:
                    res.append((s, True))
                s = self.assume(st, t, False)
                if s is not None:
                    # an empty list: forget the summary
                    s = s.set_obj(v.args[0], o.rep(open=False, summ=(),
                                                   mapseq=None))
                    res.append((s, False))
                return res
            if o.kind == "dict":
                if any(w is not ABSENT for w in o.fields.values()):
                    return [(st, True)]
                if o.base is None and not o.summ:
                    return [(st, False)]
                v = self.freeze(st, v)
                if o.base is not None and not o.summ:
                    v = o.base
            elif o.kind == "ext":
                return [(st, True)]
            elif o.kind == "inst":
                v = o.base
        if v.op == "mu" and all(is_const(a) for a in self.mu_alts(v)) and \
                v not in st.eqc:
            res = []
            for a in self.mu_alts(v):
                s = self.assume(st, mk_cmp("eq", v, a), True)
                if s is not None:
                    res.append((s, bool(cval(a))))
            return res
        if v.op == "alt" and not plain_alt(v):
            res = []
            for a in sorted(v.args[0]):
                res.extend(self.truth(st, a, node, fr))
            return self.merge_bool(res, fr)
        res = []
        s = self.assume(st, v, True)
        if s is not None:
            res.append((s, True))
        s = self.assume(st, v, False)
        if s is not None:
            res.append((s, False))
        return res

    def merge_bool(self, res, fr):
        out = []
        for b in (True, False):
            for s in self.merge([s for s, x in res if x is b], fr):
                out.append((s, b))
        return out

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        res = []
        cur = [st]
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            n = []
            for s in cur:
                for s2, val in self.ev(v, s, fr):
                    if last:
                        res.append((s2, val))
                        continue
                    for s3, b in self.truth(s2, val, v, fr):
                        if b == is_and:
                            n.append(s3)
                        else:
                            c = self.const_of(s3, val)
                            res.append((s3, c if c is not None else val))
            cur = n
        return res

    def e_UnaryOp(self, e, st, fr):
        res = []
        if isinstance(e.op, ast.Not):
            for s, v in self.ev(e.operand, st, fr):
                for s2, b in self.truth(s, v, e, fr):
                    res.append((s2, C(not b)))
            return res
        for s, v in self.ev(e.operand, st, fr):
            c = self.const_of(s, v)
            if c is not None:
                try:
                    x = cval(c)
                    r = -x if isinstance(e.op, ast.USub) else \
                        (~x if isinstance(e.op, ast.Invert) else +x)
                    res.append((s, C(r)))
                    continue
                except Exception:
                    pass
            res.append((s, T("un", type(e.op).__name__, self.freeze(s, v))))
        return res

    def e_Compare(self, e, st, fr):
        res = []
        for s, l in self.ev_list([e.left], st, fr):
            res.extend(self._cmp_chain(l[0], list(zip(e.ops, e.comparators)),
                                       s, e, fr))
        return res

    def _cmp_chain(self, left, rest, st, e, fr):
        res = []
        op, rexpr = rest[0]
        for s, right in self.ev(rexpr, st, fr):
            for s2, v in self.compare(op, left, right, s, e, fr):
                if len(rest) == 1:
                    res.append((s2, v))
                else:
                    for s3, b in self.truth(s2, v, e, fr):
                        if not b:
                            res.append((s3, FALSE))
                        else:
                            res.extend(self._cmp_chain(right, rest[1:], s3,
                                                       e, fr))
        return res

    def compare(self, op, a, b, st, node, fr):
        n = type(op).__name__
        neg = n in ("NotEq", "IsNot", "NotIn")

        def fin(s, t):
            if neg:
                if t.op == "const":
                    return (s, C(not cval(t)))
                return (s, T("not", t))
            return (s, t)
        a, b = self.norm(st, a), self.norm(st, b)
        if n in ("In", "NotIn"):
            return [fin(s, t) for s, t in self.contains(a, b, st, node, fr)]
        if n in ("Eq", "NotEq"):
            for x, y in ((a, b), (b, a)):
                if x.op == "ref":
                    o = self.obj(st, x)
                    if o.kind == "inst" and o.cls is not None:
                        f = self.class_attr(st, o.cls, "__eq__")
                        if f is not None:
                            r = self.call_value(T("bound", f, x), [y], {}, [],
                                                st, node, fr)
                            return [fin(s, t) for s, t in r]
            fa, fb = self.freeze_cmp(st, a), self.freeze_cmp(st, b)
            ra, rb = self.resolve(st, fa), self.resolve(st, fb)
            t = mk_cmp("eq", ra, rb)
            if t.op != "const":
                t = mk_cmp("eq", fa, fb)
            if fa.op == "tuple" and fb.op == "tuple" and \
                    len(fa.args) == len(fb.args) and t.op != "const":
                pass
            return [fin(st, t)]
        if n in ("Is", "IsNot"):
            ra, rb = self.resolve(st, a), self.resolve(st, b)
            for x, y in ((ra, rb), (rb, ra)):
                if x.op == "ref" and (is_const(y)):
                    return [fin(st, FALSE)]
            t = mk_cmp("is", ra, rb)
            if t.op != "const":
                t = mk_cmp("is", a, b)
                # a value that is bool by construction
                for x, y in ((a, b), (b, a)):
                    if y is TRUE and kind(x) == "bool":
                        t = x if x.op != "not" else x
                    elif y is FALSE and kind(x) == "bool":
                        t = T("not", x)
            return [fin(st, t)]
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        ra, rb = self.resolve(st, fa), self.resolve(st, fb)
        if n == "Lt":
            t = mk_cmp("lt", ra, rb)
        elif n == "Gt":
            t = mk_cmp("lt", rb, ra)
        elif n == "LtE":
            t = mk_cmp("lt", rb, ra)
            t = C(not cval(t)) if t.op == "const" else T("not", t)
        else:
            t = mk_cmp("lt", ra, rb)
            t = C(not cval(t)) if t.op == "const" else T("not", t)
        return [(st, t)]

    def freeze_cmp(self, st, t):
        if t.op == "ref":
            o = self.obj(st, t)
            if o.kind == "inst" and o.cls is not None:
                return t
        return self.freeze(st, t)

    def contains(self, a, b, st, node, fr):
        """a in b"""
        if b.op in ("dictv",):
            st, b = self.thaw(st, b, node, fr)
        fa = self.freeze(st, a)
        ka = self.resolve(st, fa)
        if b.op == "ref":
            o = self.obj(st, b)
            if o.kind == "inst" and o.cls is not None:
                f = self.class_attr(st, o.cls, "__contains__")
                if f is not None:
                    res = []
                    for s, r in self.call_value(T("bound", f, b), [a], {}, [],
                                                st, node, fr):
                        for s2, bb in self.truth(s, r, node, fr):
                            res.append((s2, C(bb)))
                    return res
                return [(st, mk_cmp("in", fa, self.freeze(st, b)))]
            if o.kind == "dict":
                res = []
                for s, v in self.dict_get(st, b, ka if is_const(ka) else fa,
                                          node, fr):
                    res.append((s, C(v is not ABSENT)))
                return self.merge_vals(res, fr)
            if o.kind in ("list", "set"):
                if not o.open:
                    items = [self.freeze(st, x) for x in o.items]
                    if is_const(ka):
                        t = mk_cmp("in", ka, T("tuple", *items))
                        if t.op == "const":
                            return [(st, t)]
                    return [(st, mk_cmp("in", fa, T("tuple", *items)))]
                return [(st, mk_cmp("in", fa, self.freeze(st, b)))]
            if o.kind == "inst":
                return [(st, mk_cmp("in", fa, o.base))]
        if b.op == "call" and b.args[0].op == "builtin" and \
                b.args[0].args[0] in ("keys",) and b.args[1]:
            return self.contains(a, self.norm(st, b.args[1][0]), st, node, fr)
        if b.op == "call" and b.args[0].op == "attr" and \
                b.args[0].args[1] == "keys" and not b.args[1]:
            return [(st, mk_cmp("in", fa, b.args[0].args[0]))]
        rb = self.resolve(st, b)
        t = mk_cmp("in", ka, rb)
        if t.op == "const":
            return [(st, t)]
        return [(st, mk_cmp("in", fa, b))]

    # -- binary operators ---------------------------------------------------
    OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Mod": "%",
           "FloorDiv": "//", "Pow": "**", "LShift": "<<", "RShift": ">>",
           "BitOr": "|", "BitXor": "^", "BitAnd": "&", "MatMult": "@"}

    def e_BinOp(self, e, st, fr):
        res = []
        for s, l in self.ev_list([e.left, e.right], st, fr):
            res.extend(self.binop(e.op, l[0], l[1], s, e, fr))
        return res

    def const_set(self, st, x):
        """the elements of a set of constants, or None"""
        o = self.obj(st, x) if x.op == "ref" else None
        if o is None or o.kind != "set" or o.open or o.summ or \
                not all(is_const(i) for i in o.items):
            return None
        return frozenset(cval(i) for i in o.items)

    def binop(self, op, a, b, st, node, fr):
        sym = self.OPS[type(op).__name__]
        a, b = self.norm(st, a), self.norm(st, b)
        ra, rb = self.resolve(st, a), self.resolve(st, b)
        if is_const(ra) and is_const(rb):
            v = models.const_binop(sym, cval(ra), cval(rb))
            if v is not None:
                return [(st, v)]
        la = a.op == "ref" and self.obj(st, a).kind == "list"
        lb = b.op == "ref" and self.obj(st, b).kind == "list"
        if sym == "+" and (la or lb):
            st, ref = self.alloc(st, HObj("list"), node, fr)
            res = []
            for s in self.list_extend(st, ref, a, node, fr):
                for s2 in self.list_extend(s, ref, b, node, fr):
                    res.append((s2, ref))
            return res
        if sym in ("&", "|", "-", "^"):
            sets = [self.const_set(st, x) for x in (a, b)]
            if None not in sets:
                both = {"&": lambda x, y: x & y, "|": lambda x, y: x | y,
                        "-": lambda x, y: x - y, "^": lambda x, y: x ^ y}
                items = sorted(both[sym](*sets), key=repr)
                st, ref = self.alloc(st, HObj(
                    "set", items=tuple(C(x) for x in items)), node, fr)
                return [(st, ref)]
        if sym == "*" and (la or lb):
            l, n = (a, b) if la else (b, a)
            o = self.obj(st, l)
            rn = self.resolve(st, n)
            if not o.open and is_const(rn) and isinstance(cval(rn), int) and \
                    0 <= cval(rn) * len(o.items) <= \
                    max(64, self.UNROLL):
                st, ref = self.alloc(st, HObj(
                    "list", items=o.items * cval(rn)), node, fr)
            else:
                st, ref = self.alloc(st, HObj(
                    "list", open=True,
                    summ=tuple((x, frozenset()) for x in o.items) + o.summ),
                    node, fr)
            return [(st, ref)]
        fa, fb = self.freeze(st, ra), self.freeze(st, rb)
        if sym == "+" and fa.op == "tuple" and fb.op == "tuple":
            return [(st, T("tuple", *(a.args + b.args)))]
        if sym == "+" and (kind(fa) in ("bytes", "str") or
                           kind(fb) in ("bytes", "str") or
                           fa.op == "cat" or fb.op == "cat"):
            return [(st, cat([fa, fb]))]
        if sym == "%" and (kind(fa) == "str"):
            parts = list(fb.args) if fb.op == "tuple" else [fb]
            return [(st, T("fmt", fa, *parts))]
        if sym == "*" and (kind(fa) in ("bytes", "str") or
                           kind(fb) in ("bytes", "str")):
            return [(st, T("repeat", fa, fb) if kind(fa) in ("bytes", "str")
                     else T("repeat", fb, fa))]
        if sym in ("^", "|", "&", "+", "*") and fb.id < fa.id and \
                kind(fa) not in ("list", "tuple", "bytes", "str") and \
                sym in ("^", "|", "&"):
            fa, fb = fb, fa
        return [(st, T("bin", sym, fa, fb))]

    # -- attributes ----------------------------------------------------------
    def e_Attribute(self, e, st, fr):
        res = []
        for s, b in self.ev(e.value, st, fr):
            res.extend(self.get_attr(s, b, e.attr, e, fr))
        return res

    def bind_class_attr(self, st, v, selfv, cls, node, fr):
        if v.op == "func":
            return [(st, T("bound", v, selfv))]
        if v.op == "static":
            return [(st, v.args[0])]
        if v.op == "clsm":
            return [(st, T("bound", v.args[0], T("class", cls)))]
        if v.op == "prop":
            return self.call_value(T("bound", v.args[0], selfv), [], {}, [],
                                   st, node, fr)
        return [(st, v)]

    def get_attr(self, st, b, name, node, fr):
        b = self.norm(st, b)
        if b.op == "ref":
            o = self.obj(st, b)
            if o.kind == "inst":
                if name in o.fields:
                    v = o.fields[name]
                    if v is UNBOUND:
                        self.raise_(st, T("exc", "builtins.AttributeError", ()))
                        return []
                    return [(st, v)]
                if o.cls is None:
                    return [(st, attr(o.base, name))]
                v = self.class_attr(st, o.cls, name)
                if v is not None:
                    return self.bind_class_attr(st, v, b, o.cls, node, fr)
                if name == "__class__":
                    return [(st, T("class", o.cls))]
                if name == "__dict__":
                    return [(st, T("objdict", b))]
                if o.base is not None:
                    return [(st, attr(o.base, name))]
                f = self.class_attr(st, o.cls, "__getattr__")
                if f is not None:
                    return self.call_value(T("bound", f, b), [C(name)], {}, [],
                                           st, node, fr)
                if self.has_ext_base(o.cls):
                    return [(st, attr(T("opaqueref", b.args[0]), name))]
                self.raise_(st, T("exc", "builtins.AttributeError", ()))
                return []
            if o.kind == "ext":
                return [(st, T("emeth", b, name))]
            return [(st, T("cmeth", b, name))]
        if b.op == "mod":
            v = st.frames.get(("mod", b.args[0]), {}).get(name)
            if v is not None:
                return [(st, v)]
            sub = b.args[0] + "." + name
            if sub in self.project.modules:
                st, m = self.import_module(sub, st)
                return [(st, m)]
            self.raise_(st, T("exc", "builtins.AttributeError", ()))
            return []
        if b.op == "class":
            v = self.class_attr(st, b.args[0], name)
            if v is not None:
                if v.op == "clsm":
                    return [(st, T("bound", v.args[0], b))]
                if v.op == "static":
                    return [(st, v.args[0])]
                return [(st, v)]
            if name == "__name__":
                return [(st, C(b.args[0].rsplit(".", 1)[-1]))]
            if self.has_ext_base(b.args[0]) or name.startswith("__"):
                return [(st, attr(b, name))]
            self.raise_(st, T("exc", "builtins.AttributeError", ()))
            return []
        if b.op == "super":
            q, selfv = b.args
            o = self.obj(st, selfv) if selfv.op == "ref" else None
            cls = o.cls if o is not None and o.cls else q
            if selfv.op == "class":
                cls = selfv.args[0]
            v = self.class_attr(st, cls, name, after=q)
            if v is not None:
                return self.bind_class_attr(st, v, selfv, cls, node, fr)
            return [(st, attr(b, name))]
        if b.op == "ext":
            return [(st, models.canon_ext(b.args[0] + "." + name))]
        if b.op == "objv":
            for k, v in b.args[2]:
                if k == name:
                    return [(st, v)]
            st, ref = self.thaw(st, b, node, fr)
            return self.get_attr(st, ref, name, node, fr)
        if b.op in ("dictv", "listv"):
            st, ref = self.thaw(st, b, node, fr)
            return [(st, T("cmeth", ref, name))]
        if b.op == "const" and cval(b) is None:
            self.raise_(st, T("exc", "builtins.AttributeError", ()))
            return []
        if b.op == "exc":
            return [(st, attr(b, name))]
        if b.op == "alt" and not plain_alt(b):
            res = []
            for x in sorted(b.args[0]):
                res.extend(self.get_attr(st, x, name, node, fr))
            return self.merge_vals(res, fr)
        if st.eqc.get(b) is NONE:
            self.raise_(st, T("exc", "builtins.AttributeError", ()))
            return []
        if self.try_depth > 0 and name not in self.total_attrs:
            rb = self.resolve(st, b)
            k = type(cval(rb)) if is_const(rb) else \
                {"bytes": bytes, "str": str}.get(
                    "str" if self.is_text(st, rb) else kind(rb))
            if k is None or not hasattr(k, name):
                self.sinks[-1].append(
                    (st, T("exc", "builtins.AttributeError", ())))
        return [(st, attr(b, name))]

    def set_attr(self, st, b, name, v, node, fr):
        b = self.norm(st, b)
        if b.op == "class":
            self.event("setattr", node, fr, (b, name, self.freeze(st, v)), st)
            return [st.set_var(("cls", b.args[0]), name, v)]
        if b.op == "mod":
            return [st.set_var(("mod", b.args[0]), name, v)]
        if b.op in ("const", "ext", "builtin", "func"):
            return [st]
        if b.op != "ref":
            st, b = self.materialise(st, b, "inst", node, fr)
        o = self.obj(st, b)
        if o.kind == "inst":
            self.event("setattr", node, fr, (b, name, self.freeze(st, v)), st)
            return [st.set_obj(b.args[0], o.with_field(name, v))]
        return [st]

    # -- items ---------------------------------------------------------------
    def e_Subscript(self, e, st, fr):
        res = []
        for s, b in self.ev(e.value, st, fr):
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper, e.slice.step]
                acc = [(s, [])]
                for p in parts:
                    n = []
                    for x, l in acc:
                        if p is None:
                            n.append((x, l + [NONE]))
                        else:
                            for y, v in self.ev(p, x, fr):
                                n.append((y, l + [v]))
                    acc = n
                for x, l in acc:
                    res.extend(self.get_slice(x, b, l, e, fr))
            else:
                for s2, k in self.ev(e.slice, s, fr):
                    res.extend(self.get_item(s2, b, k, e, fr))
        return res

    def get_slice(self, st, b, l, node, fr):
        b = self.norm(st, b)
        l = [self.resolve(st, x) for x in l]
        if b.op == "ref":
            o = self.obj(st, b)
            if o.kind == "list":
                if not o.open and all(is_const(x) for x in l):
                    try:
                        items = o.items[cval(l[0]):cval(l[1]):cval(l[2])]
                        st, ref = self.alloc(st, HObj("list", items=items),
                                             node, fr)
                        return [(st, ref)]
                    except Exception:
                        pass
                if all(x is NONE for x in l):
                    st, ref = self.alloc(st, o, node, fr)
                    return [(st, ref)]
                summ = o.summ + tuple((x, frozenset()) for x in o.items)
                cut = T("sliceobj", *[self.freeze(st, x) for x in l])
                st, ref = self.alloc(st, HObj("list", open=True, summ=summ,
                                              term=cut), node, fr)
                return [(st, ref)]
            if o.kind == "inst" and o.cls is not None:
                f = self.class_attr(st, o.cls, "__getitem__")
                if f is not None:
                    return self.call_value(T("bound", f, b), [
                        T("sliceobj", *l)], {}, [], st, node, fr)
        if b.op == "tuple" and all(is_const(x) for x in l):
            return [(st, T("tuple", *b.args[cval(l[0]):cval(l[1]):
                                            cval(l[2])]))]
        if is_const(b) and all(is_const(x) for x in l):
            try:
                return [(st, C(cval(b)[cval(l[0]):cval(l[1]):cval(l[2])]))]
            except Exception:
                pass
        fl = [self.freeze(st, x) for x in l]
        if fl[0] is C(0):
            fl[0] = NONE
        return [(st, T("slice", self.freeze(st, b), *fl))]

    def get_item(self, st, b, k, node, fr):
        b = self.norm(st, b)
        k0 = self.freeze(st, k)
        k = self.resolve(st, k0)
        if b.op in ("dictv", "listv") and not is_const(k):
            st, b = self.thaw(st, b, node, fr)
        if b.op == "dictv":
            st, b = self.thaw(st, b, node, fr)
        if b.op == "ref":
            o = self.obj(st, b)
            if o.kind == "dict":
                res = []
                for s, v in self.dict_get(st, b, k, node, fr):
                    if v is ABSENT:
                        self.raise_(s, T("exc", "builtins.KeyError", (k0,)))
                    else:
                        res.append((s, v))
                return res
            if o.kind in ("list",):
                return self.list_get(st, b, k, node, fr)
            if o.kind == "inst" and o.cls is not None:
                f = self.class_attr(st, o.cls, "__getitem__")
                if f is not None:
                    return self.call_value(T("bound", f, b), [k0], {}, [], st,
                                           node, fr)
                return [(st, T("item", self.freeze(st, b), k0))]
            if o.kind == "inst":
                return [(st, T("item", o.base, k0))]
            return [(st, T("item", self.freeze(st, b), k0))]
        if b.op == "tuple" and not is_const(k):
            if len(b.args) >= self.TABLE:
                return [(st, T("item", self.freeze(st, b), k0))]
            return [(st, x) for x in b.args]
        if b.op == "const" and not is_const(b):
            pass
        if b.op == "const" and cval(b) is None:
            self.raise_(st, T("exc", "builtins.TypeError", ()))
            return []
        if b.op == "alt" and not plain_alt(b):
            res = []
            for x in sorted(b.args[0]):
                res.extend(self.get_item(st, x, k0, node, fr))
            return self.merge_vals(res, fr)
        if b.op in ("tuple", "const", "listv") and is_const(k):
            r = mk_item_static(b, k)
            if r.op == "item":
                self.raise_(st, T("exc", "builtins.IndexError", ()))
                return []
            return [(st, r)]
        r = mk_item_static(b, k)
        if is_const(k) and isinstance(cval(k), str) or (
                not is_const(k) and b.op != "slice"):
            # dictionary-like access
            atom = mk_cmp("in", k, b)
            res = []
            ab = self.assume(st, atom, False)
            if ab is not None and (self.try_depth > 0 or
                                   (atom, False) in st.facts):
                self.raise_(ab, T("exc", "builtins.KeyError", (k0,)))
                if not is_const(k):
                    self.raise_(ab, T("exc", "builtins.IndexError", ()))
                if self.try_depth > 0:
                    self.sinks[-1].append(
                        (st, T("exc", "builtins.TypeError", ())))
            pr = self.assume(st, atom, True)
            if pr is not None:
                res.append((pr, r))
            return res
        if self.try_depth > 0:
            self.sinks[-1].append((st, T("exc", "builtins.IndexError", ())))
            self.sinks[-1].append((st, T("exc", "builtins.TypeError", ())))
        return [(st, r)]

    def writable(self, st, b, how, node, fr):
        b = self.norm(st, b)
        if b.op == "ref":
            return st, b
        return self.materialise(st, b, how, node, fr)

    def set_item(self, st, b, k, v, node, fr):
        b = self.norm(st, b)
        k = self.resolve(st, self.freeze(st, k))
        if b.op in ("const", "tuple", "ext", "class"):
            self.raise_(st, T("exc", "builtins.TypeError", ()))
            return []
        if b.op != "ref":
            how = "list" if is_const(k) and isinstance(cval(k), int) \
                else "dict"
            st, b = self.materialise(st, b, how, node, fr)
        o = self.obj(st, b)
        if o.kind == "inst":
            if o.cls is not None:
                f = self.class_attr(st, o.cls, "__setitem__")
                if f is not None:
                    return [s for s, _ in self.call_value(
                        T("bound", f, b), [k, v], {}, [], st, node, fr)]
            return [st]
        self.event("setitem", node, fr, (b, k, self.freeze(st, v)), st)
        if o.kind == "dict":
            return self.dict_set(st, b, k, v)
        if o.kind == "list":
            if is_const(k) and isinstance(cval(k), int) and \
                    0 <= cval(k) < len(o.items):
                items = list(o.items)
                items[cval(k)] = v
                return [st.set_obj(b.args[0], o.rep(items=tuple(items)))]
            summ = o.summ + tuple((x, frozenset()) for x in o.items) + \
                ((v, frozenset()),)
            return [st.set_obj(b.args[0], o.rep(items=(), open=True,
                                                summ=summ, mapseq=None))]
        return [st]

    # -- containers ----------------------------------------------------------
    def list_append(self, st, ref, v):
        o = self.obj(st, ref)
        if not o.open:
            return st.set_obj(ref.args[0], o.rep(items=o.items + (v,)))
        e = (v, st.facts)
        if e in o.summ:
            return st
        return st.set_obj(ref.args[0], o.rep(summ=o.summ + (e,), mapseq=None))

    def list_extend(self, st, ref, v, node, fr):
        seq = self.exact_seq(st, v)
        o = self.obj(st, ref)
        if seq is not None:
            for x in seq:
                st = self.list_append(st, ref, x)
            return [st]
        v = self.norm(st, v)
        res = []
        for st2, sq in self.iter_values(st, v, node, fr):
            o = self.obj(st2, ref)
            if sq[0] == "exact":
                for x in sq[1]:
                    st2 = self.list_append(st2, ref, x)
                res.append(st2)
                continue
            L = self.site(node, fr)
            summ = list(o.summ)
            mapseq = None
            vo = self.obj(st2, v) if v.op == "ref" else None
            if vo is not None and vo.kind == "list":
                summ.extend(vo.summ)
                if not o.open:
                    mapseq = vo.mapseq if not vo.items else None
                items = o.items + (vo.items if not o.open else ())
                if o.open:
                    summ.extend((x, frozenset()) for x in vo.items)
                res.append(st2.set_obj(ref.args[0], o.rep(
                    items=items, summ=tuple(summ), open=True, mapseq=mapseq)))
                continue
            for s3, x in self.elements(st2, sq, node, fr, L):
                df = frozenset((self.generalise(a, L), p)
                               for a, p in s3.facts - st2.facts)
                summ.append((self.generalise(x, L), df))
            if not o.open and len(summ) == 1 and v.op != "ref":
                e = summ[0][0]
                if e.op == "elem":
                    mapseq = (e, e, e.args[1])
            res.append(st2.set_obj(ref.args[0], o.rep(
                summ=tuple(summ), open=True, mapseq=mapseq)))
        return res

    def list_get(self, st, ref, k, node, fr):
        o = self.obj(st, ref)
        res = []
        if is_const(k) and isinstance(cval(k), int):
            i = cval(k)
            if 0 <= i < len(o.items):
                return [(st, o.items[i])]
            if not o.open:
                if -len(o.items) <= i < 0:
                    return [(st, o.items[i])]
                self.raise_(st, T("exc", "builtins.IndexError", ()))
                return []
            if o.mapseq and (i >= 0 or not o.items):
                elem, body, it = o.mapseq
                j = i - len(o.items) if i >= 0 else i
                m = {elem: mk_item_static(it, C(j))}
                if self.try_depth > 0:
                    self.sinks[-1].append(
                        (st, T("exc", "builtins.IndexError", ())))
                return [(st, self.subst(body, m))]
        elif not o.open and len(o.items) >= self.TABLE:
            return [(st, T("item", T("tuple", *[
                self.freeze(st, x) for x in o.items]), self.freeze(st, k)))]
        else:
            for x in o.items:
                res.append((st, x))
            if o.open and o.mapseq and not o.items:
                elem, body, it = o.mapseq
                m = {elem: mk_item_static(it, k)}
                return [(st, self.subst(body, m))]
        if self.try_depth > 0:
            self.sinks[-1].append((st, T("exc", "builtins.IndexError", ())))
        tag = self.gen() + (("r", self.site(node, fr)),)
        res.extend(self.pick(st, o.summ, tag))
        return self.merge_vals(res, fr)

    def pick(self, st, summ, tag):
        res = []
        for v, facts in summ:
            s = self.assume_all(st, [(self.specialise(a, tag), p)
                                     for a, p in facts])
            if s is not None:
                res.append((s, self.specialise(v, tag)))
        return res

    def assume_all(self, st, facts):
        for a, p in facts:
            if a.op in ("forall", "done"):
                st = st.add_fact(a, p)
                continue
            if a.op == "dnf":
                st = self.assume_dnf(st, a)
            else:
                st = self.assume(st, a, p)
            if st is None:
                return None
        return st

    def unify_key(self, st, ek, k, tag):
        """can summary key ek denote key k?  -> (substitution, atom|None) or
        None"""
        if ek is k:
            return {}, None
        if is_const(ek) and is_const(k):
            return None
        if ek.op == "elem" and ek.args[2] == ("*",):
            it = ek.args[1]
            if is_const(k) and it.op in ("tuple", "listv"):
                items = it.args if it.op == "tuple" else it.args[0]
                if it.op == "tuple" or not it.args[1]:
                    if all(is_const(x) for x in items):
                        if k not in items:
                            return None
            return {ek: k}, None
        ek2 = self.specialise(ek, tag)
        return {}, mk_cmp("eq", ek2, k)

    def dict_get(self, st, ref, k, node, fr):
        """-> [(st, value | ABSENT)]"""
        o = self.obj(st, ref)
        k = self.resolve(st, k)
        res = []
        tag = self.gen() + (("r", self.site(node, fr)),)
        if not is_const(k) and (o.fields and len(o.fields) <= 64):
            # symbolic key over known entries
            rest = st
            for kk, v in list(o.fields.items()):
                e = mk_cmp("eq", k, kk)
                s = self.assume(st, e, True)
                if s is not None:
                    res.append((s, v))
                if rest is not None:
                    rest = self.assume(rest, e, False)
            if rest is None:
                return res
            st0 = rest
            exact = None
        else:
            st0 = st
            exact = o.fields.get(k)
        for ek, ev_, facts in o.summ:
            u = self.unify_key(st0, ek, k, tag)
            if u is None:
                continue
            mp, atom = u
            s = st0
            if atom is not None:
                s = self.assume(s, atom, True)
                if s is None:
                    continue
            fl = [(self.specialise(self.subst(a, mp), tag), p)
                  for a, p in facts]
            fl2 = []
            bad = False
            for a, p in fl:
                if a.op == "forall":
                    continue
                a2 = self.fold(a)
                fl2.append((a2, p))
            s = self.assume_all(s, fl2)
            if s is None:
                continue
            res.append((s, self.specialise(self.subst(ev_, mp), tag)))
        if exact is not None:
            if exact is ABSENT:
                res.append((st0, ABSENT))
            else:
                res.append((st0, exact))
        elif o.base is not None:
            atom = mk_cmp("in", k, o.base)
            s = self.assume(st0, atom, True)
            if s is not None:
                res.append((s, mk_item_static(o.base, k)))
            s = self.assume(st0, atom, False)
            if s is not None:
                res.append((s, ABSENT))
        else:
            res.append((st0, ABSENT))
        return self.merge_vals(res, fr) if len(res) > 1 else res

    def dict_set(self, st, ref, k, v):
        k = self.resolve(st, self.freeze(st, k))
        o = self.obj(st, ref)
        if o is None:
            return [st]
        if is_const(k):
            # a definite write hides the summary entries with this very key
            summ = tuple(e for e in o.summ if e[0] is not k)
            o = o.rep(summ=summ) if len(summ) != len(o.summ) else o
            if any(not is_const(e[0]) for e in o.summ):
                # a later definite write wins over earlier summary writes;
                # keep the summary for the other keys by excluding k
                ns = []
                for ek, ev_, f in o.summ:
                    if not is_const(ek):
                        ns.append((ek, ev_, f | {(mk_cmp("eq", ek, k), False)}))
                    else:
                        ns.append((ek, ev_, f))
                o = o.rep(summ=tuple(ns))
            return [st.set_obj(ref.args[0], o.with_field(k, v))]
        e = (k, v, st.facts)
        return [st.set_obj(ref.args[0], o.rep(summ=o.summ + (e,)))]

    def dict_update(self, st, ref, v, node, fr):
        v = self.norm(st, v)
        if v.op == "dictv":
            st, v = self.thaw(st, v, node, fr)
        o = self.obj(st, ref)
        if v.op == "ref":
            w = self.obj(st, v)
            if w.kind == "dict":
                summ = o.summ
                fields = dict(o.fields)
                if w.base is not None:
                    # entries of the unknown part override
                    kk = T("elem", self.site(node, fr),
                           call(T("builtin", "keys"), (w.base,)), ("*",))
                    summ = summ + ((kk, mk_item_static(w.base, kk),
                                    frozenset([(mk_cmp("in", kk, w.base),
                                                True)])),)
                for e in w.summ:
                    summ = summ + (e,)
                for k, x in w.fields.items():
                    if x is ABSENT:
                        continue
                    fields[k] = x
                    summ = tuple((a, b, f | {(mk_cmp("eq", a, k), False)})
                                 if not is_const(a) else (a, b, f)
                                 for a, b, f in summ if a is not k)
                base = o.base
                return [st.set_obj(ref.args[0], o.rep(fields=fields,
                                                      summ=summ))]
            if w.kind == "inst" and w.cls is None:
                v = w.base
            else:
                v = self.freeze(st, v)
        if v.op == "const":
            return [st]
        if not o.fields and not o.summ and o.base is None:
            return [st.set_obj(ref.args[0], o.rep(base=v))]
        kk = T("elem", self.site(node, fr), call(T("builtin", "keys"), (v,)),
               ("*",))
        e = (kk, mk_item_static(v, kk),
             frozenset([(mk_cmp("in", kk, v), True)]))
        return [st.set_obj(ref.args[0], o.rep(summ=o.summ + (e,)))]

    # -- iteration -----------------------------------------------------------
    def exact_iter(self, st, it, node, fr):
        """the elements iterating over the value yields, if known"""
        ex = self.exact_seq(st, it)
        if ex is None:
            v = self.norm(st, it)
            if v.op == "call" and v.args[0].op == "builtin":
                r = self.iter_values(st, v, node, fr)
                if len(r) == 1 and r[0][0] is st and r[0][1][0] == "exact":
                    ex = list(r[0][1][1])
        return ex

    def iter_values(self, st, it, node, fr):
        """-> [(st, ('exact',[..]) | ('gen', it))]"""
        it = self.norm(st, it)
        ex = self.exact_seq(st, it)
        if ex is not None:
            return [(st, ("exact", ex, it))]
        if it.op == "slice" and it.args[0].op == "listv":
            it = it.args[0]
        if it.op in ("dictv", "listv"):
            st, it = self.thaw(st, it, node, fr)
        if it.op == "ref":
            o = self.obj(st, it)
            if o.kind == "inst" and o.cls is not None:
                f = self.class_attr(st, o.cls, "__iter__")
                if f is not None:
                    res = []
                    for s, v in self.call_value(T("bound", f, it), [], {}, [],
                                                st, node, fr):
                        res.extend(self.iter_values(s, v, node, fr))
                    return res
            return [(st, ("gen", None, it))]
        if it.op == "call" and it.args[0].op == "builtin":
            n = it.args[0].args[0]
            a = it.args[1]
            if n == "range" and all(is_const(self.resolve(st, x)) for x in a):
                try:
                    r = range(*[cval(self.resolve(st, x)) for x in a])
                    if len(r) <= max(24, self.UNROLL_COMP):
                        return [(st, ("exact", [C(i) for i in r], it))]
                except Exception:
                    pass
            if n in ("enumerate", "zip"):
                seqs = [self.exact_iter(st, x, node, fr) for x in a]
                if all(s is not None for s in seqs) and seqs:
                    if n == "enumerate":
                        vals = [T("tuple", C(i), x)
                                for i, x in enumerate(seqs[0])]
                    else:
                        vals = [T("tuple", *x) for x in zip(*seqs)]
                    return [(st, ("exact", vals, it))]
            if n in ("items", "keys", "values") and a:
                d = self.norm(st, a[0])
                if d.op == "dictv":
                    st, d = self.thaw(st, d, node, fr)
                if d.op == "ref":
                    o = self.obj(st, d)
                    if o.kind == "dict" and o.base is None and not o.summ:
                        its = [(k, v) for k, v in o.fields.items()
                               if v is not ABSENT]
                        vals = [k if n == "keys" else v if n == "values"
                                else T("tuple", k, v) for k, v in its]
                        return [(st, ("exact", vals, it))]
            if n in ("reversed", "sorted", "iter", "list", "tuple", "set"):
                ex = self.exact_iter(st, a[0], node, fr) if a else None
                if ex is not None and n != "sorted":
                    return [(st, ("exact",
                                  list(reversed(ex)) if n == "reversed"
                                  else ex, it))]
        return [(st, ("gen", None, it))]

    def elements(self, st, seq, node, fr, L):
        """alternatives for one arbitrary element -> [(st, value)]"""
        if seq[0] == "exact":
            site = self.site(node, fr)
            if all(is_const(x) for x in seq[1]):
                e = T("elem", site, T("tuple", *seq[1]),
                      self.loopgen(L))
                s = self.learn(st, mk_cmp("in", e, T("tuple", *seq[1])), True)
                return [(s, e)]
            return [(st, x) for x in seq[1]]
        return self.elem_of(st, seq[2], self.site(node, fr), node, fr, L)

    def loopgen(self, L):
        return self.gen() if L in self.loopstack else self.gen() + (L,)

    def elem_of(self, st, it, site, node, fr, L):
        it = self.norm(st, it)
        gen = self.loopgen(L)
        ex = self.exact_seq(st, it)
        if ex is not None:
            return [(st, x) for x in ex]
        if it.op == "ref":
            o = self.obj(st, it)
            if o.kind in ("list", "set"):
                if o.open and o.mapseq and not o.items and \
                        o.mapseq[2].op != "ref":
                    # element of a mapped sequence
                    elem, body, src = o.mapseq
                    e = T("elem", site, src, gen)
                    return [(st, self.subst(body, {elem: e}))]
                res = [(st, x) for x in o.items]
                res.extend(self.pick(st, o.summ, gen))
                return self.merge_vals(res, fr)
            if o.kind == "dict":
                res = []
                for k, v in o.fields.items():
                    if v is not ABSENT:
                        res.append((st, k))
                for k, v, f in o.summ:
                    s = self.assume_all(st, [(self.specialise(a, gen), p)
                                             for a, p in f])
                    if s is not None:
                        res.append((s, self.specialise(k, gen)))
                if o.base is not None:
                    e = T("elem", site, o.base, gen)
                    s = self.assume(st, mk_cmp("in", e, o.base), True)
                    if s is not None:
                        res.append((s, e))
                return res
            if o.kind == "inst" and o.cls is None:
                return [(st, T("elem", site, o.base, gen))]
            return [(st, T("elem", site, self.freeze(st, it), gen))]
        if it.op == "call" and it.args[0].op == "builtin":
            n, a = it.args[0].args[0], it.args[1]
            if n == "zip" and a:
                acc = [(st, [])]
                for x in a:
                    nn = []
                    for s, l in acc:
                        for s2, v in self.elem_of(s, x, site, node, fr, L):
                            nn.append((s2, l + [v]))
                    acc = nn
                return [(s, T("tuple", *l)) for s, l in acc]
            if n == "enumerate" and a:
                i = T("elem", site, call(T("builtin", "range"), (
                    call(T("builtin", "len"), (self.freeze(st, a[0]),)),)),
                    gen)
                return [(s, T("tuple", i, v))
                        for s, v in self.elem_of(st, a[0], site, node, fr, L)]
            if n in ("reversed", "sorted", "iter", "list", "tuple", "set",
                     "frozenset", "keys") and a:
                return self.elem_of(st, a[0], site, node, fr, L)
            if n in ("items", "values") and a:
                d = self.norm(st, a[0])
                if d.op == "dictv":
                    st, d = self.thaw(st, d, node, fr)
                    d = self.norm(st, d)

                def mk(k, v):
                    return T("tuple", k, v) if n == "items" else v
                if d.op == "ref" and self.obj(st, d).kind == "dict":
                    o = self.obj(st, d)
                    res = []
                    for k, v in o.fields.items():
                        if v is not ABSENT:
                            res.append((st, mk(k, v)))
                    for k, v, f in o.summ:
                        s = self.assume_all(
                            st, [(self.specialise(x, gen), p) for x, p in f])
                        if s is not None:
                            res.append((s, mk(self.specialise(k, gen),
                                              self.specialise(v, gen))))
                    if o.base is not None:
                        e = T("elem", site, o.base, gen)
                        s = self.assume(st, mk_cmp("in", e, o.base), True)
                        if s is not None:
                            res.append((s, mk(e, mk_item_static(o.base, e))))
                    return res
                d = self.freeze(st, d)
                e = T("elem", site, d, gen)
                return [(st, mk(e, mk_item_static(d, e)))]
        if it.op == "call" and it.args[0].op == "attr" and not it.args[1] and \
                it.args[0].args[1] in ("items", "values", "keys"):
            d = it.args[0].args[0]
            n = it.args[0].args[1]
            e = T("elem", site, d, gen)
            v = mk_item_static(d, e)
            st = st.add_fact(mk_cmp("in", e, d), True)
            return [(st, T("tuple", e, v) if n == "items" else
                     v if n == "values" else e)]
        if it.op == "alt" and not plain_alt(it):
            res = []
            for x in sorted(it.args[0]):
                res.extend(self.elem_of(st, x, site, node, fr, L))
            return self.merge_vals(res, fr)
        return [(st, T("elem", site, self.freeze(st, it), gen))]

    # -- comprehensions --------------------------------------------------------
    def as_comprehension(self, e):
        """map and filter as the list they run through"""
        c = self._comp_cache.get(("as", id(e)))
        if c is None:
            def mk(n):
                for x in (n,):
                    ast.copy_location(x, e)
                    x._mod = getattr(e, "_mod", None)
                    x._parent = getattr(e, "_parent", None)
                return n
            f, seq = e.args
            x = "$item%d" % self.nodeidx(e)
            name = mk(ast.Name(id=x, ctx=ast.Load()))
            if e.func.id == "filter" and isinstance(
                    f, ast.Constant) and f.value is None:
                made = name
            else:
                made = mk(ast.Call(func=f, args=[name], keywords=[]))
            g = ast.comprehension(
                target=mk(ast.Name(id=x, ctx=ast.Store())), iter=seq,
                ifs=[made] if e.func.id == "filter" else [], is_async=0)
            n = mk(ast.ListComp(
                elt=name if e.func.id == "filter" else made,
                generators=[g]))
            c = self._comp_cache[("as", id(e))] = (n, e)
        return c[0]

    def comp(self, e, st, fr, how):
        key = id(e)
        c = self._comp_cache.get(key)
        if c is None:
            ap = _Append()
            ap.lineno, ap.col_offset = e.lineno, e.col_offset
            ap.elt = e.value if isinstance(e, ast.DictComp) else e.elt
            ap.key = e.key if isinstance(e, ast.DictComp) else None
            ap.how = how
            body = [ap]
            for g in reversed(e.generators):
                for cnd in reversed(g.ifs):
                    n = ast.If(test=cnd, body=body, orelse=[])
                    ast.copy_location(n, e)
                    body = [n]
                n = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
                ast.copy_location(n, e)
                n._comp = True
                n._mod = getattr(e, "_mod", None)
                n._parent = getattr(e, "_parent", None)
                body = [n]
            names = set()
            for g in e.generators:
                names |= assigned_in([g.target])
            c = (body, frozenset(names), e)
            self._comp_cache[key] = c
        body, names, _ = c
        fid = self.intern(("comp", self.nodeidx(e), fr.ctx))
        cfr = Frame(fid, fr.mod, fr.cls, fr.func, fid, names, fr.fid, fr.node,
                    fr.base_ids, fr.selfref, fr.globals)
        kindn = "dict" if how == "dict" else ("set" if how == "set" else "list")
        st, ref = self.alloc(st, HObj(kindn), e, fr)
        cfr.base_ids = fr.base_ids | frozenset([ref.args[0]])
        old = st.frames.get(fid)
        st = st.set_frame(fid, {"$acc": ref, "$closure": T("fid", fr.fid)})
        was = fr.fid in self.captured
        o = self.exec_block(body, [st], cfr)
        res = []
        for s in o.norm:
            s = s.drop_frame(fid) if old is None else s.set_frame(fid, old)
            res.append((s, ref))
        return res

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    # -- calls -----------------------------------------------------------------
    def e_Call(self, e, st, fr):
        res = []
        # super() with and without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                self.lookup_var(st, fr, "super") in (T("builtin", "super"),):
            if not e.args:
                sv = fr.selfref
                return [(st, T("super", fr.cls, sv))]
            for s, l in self.ev_list(e.args, st, fr):
                q = l[0].args[0] if l[0].op == "class" else fr.cls
                res.append((s, T("super", q, l[1] if len(l) > 1 else
                                 fr.selfref)))
            return res
        if isinstance(e.func, ast.Name) and e.func.id in ("map", "filter") \
                and len(e.args) == 2 and not e.keywords and \
                not any(isinstance(a, ast.Starred) for a in e.args) and \
                self.lookup_var(st, fr, e.func.id) in (
                    T("builtin", e.func.id),):
            return self.comp(self.as_comprehension(e), st, fr, "list")
        for s, f in self.ev(e.func, st, fr):
            acc = [(s, [], {}, [])]
            for a in e.args:
                n = []
                for x, l, kw, kb in acc:
                    if isinstance(a, ast.Starred):
                        for y, v in self.ev(a.value, x, fr):
                            sq = self.exact_seq(y, v)
                            if sq is not None:
                                n.append((y, l + sq, kw, kb))
                            else:
                                n.append((y, l + [T("star", self.freeze(y, v))
                                                  ], kw, kb))
                    else:
                        for y, v in self.ev(a, x, fr):
                            n.append((y, l + [v], kw, kb))
                acc = n
            for k in e.keywords:
                n = []
                for x, l, kw, kb in acc:
                    for y, v in self.ev(k.value, x, fr):
                        if k.arg is None:
                            n.append((y, l, kw, kb + [v]))
                        else:
                            k2 = dict(kw)
                            k2[k.arg] = v
                            n.append((y, l, k2, kb))
                acc = n
            for x, l, kw, kb in acc:
                res.extend(self.call_value(f, l, kw, kb, x, e, fr))
        if len(res) > 8:
            res = self.merge_vals(res, fr)
        return res

    def is_text(self, st, t):
        return kind(t) == "str" or \
            (T("isinst", t, T("builtin", "str")), True) in st.facts

    def opaque_call(self, f, args, kw, st, node, fr, kind_="call",
                    raises=True):
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
        ff = self.freeze(st, f)
        t = T("call", ff, fa, fk)
        nm = fname(ff)
        if models.is_impure(ff):
            t = T("fresh", t, self.site(node, fr), self.gen())
        self.event("call", node, fr, (ff, fa, fk, t), st)
        self.stats["calls"] += 1
        if raises:
            mk = self.marker(ff) if self.marker is not None else None
            for m in (mk,) if isinstance(mk, str) else mk or ():
                self.sinks[-1].append((st, T("exc", m, (T("marker", t),))))
            if nm == "encode" and ff.op == "attr" and \
                    self.is_text(st, ff.args[0]):
                # str.encode fails with UnicodeEncodeError only
                if self.try_depth > 0:
                    self.sinks[-1].append((st, T(
                        "exc", "builtins.UnicodeEncodeError", ())))
            else:
                self.may_raise(st)
        if ff.op == "attr" and nm in ("verify", "hexverify"):
            # a verification API that raises on failure
            st = st.add_fact(T("done", t), True)
        elif self.done_ops and ff.op == "func" and ff.args[0] in self.done_ops:
            # returning at all is what the rules want to know about
            st = st.add_fact(T("done", t), True)
        return [(st, t)]

    def call_value(self, f, args, kw, kb, st, node, fr):
        f = self.norm(st, f)
        if f.op == "func":
            return self.call_func(f, args, kw, kb, st, node, fr)
        if f.op == "bound":
            return self.call_value(f.args[0], [f.args[1]] + list(args), kw, kb,
                                   st, node, fr)
        if f.op == "static":
            return self.call_value(f.args[0], args, kw, kb, st, node, fr)
        if f.op == "partial":
            k2 = dict(f.args[2])
            k2.update(kw)
            return self.call_value(f.args[0], list(f.args[1]) + list(args), k2,
                                   kb, st, node, fr)
        if f.op == "class":
            return self.instantiate(f, args, kw, kb, st, node, fr)
        if f.op == "alt":
            res = []
            for x in sorted(f.args[0]):
                res.extend(self.call_value(x, args, kw, kb, st, node, fr))
            return self.merge_vals(res, fr)
        if f.op == "ref":
            o = self.obj(st, f)
            if o.kind == "inst" and o.cls is not None:
                m = self.class_attr(st, o.cls, "__call__")
                if m is not None:
                    return self.call_value(T("bound", m, f), args, kw, kb, st,
                                           node, fr)
        for v in kb:
            # keyword spread into something not analysed
            v = self.norm(st, v)
            if v.op == "ref" and self.obj(st, v).kind == "dict":
                o = self.obj(st, v)
                kw = dict(kw)
                for k, x in o.fields.items():
                    if x is not ABSENT and is_const(k):
                        kw[str(cval(k))] = x
                if o.base is not None or o.summ:
                    kw["**"] = self.freeze(st, v)
            else:
                kw = dict(kw)
                kw["**"] = v
        if f.op == "const" or f.op in ("tuple", "dictv", "listv"):
            self.raise_(st, T("exc", "builtins.TypeError", ()))
            return []
        if f.op == "builtin":
            return models.call_builtin(self, f, args, kw, st, node, fr)
        if f.op == "cmeth":
            return models.call_container(self, f, args, kw, st, node, fr)
        if f.op == "emeth":
            return models.call_extobj(self, f, args, kw, st, node, fr)
        if f.op == "ext":
            return models.call_ext(self, f, args, kw, st, node, fr)
        if f.op == "attr":
            return models.call_method(self, f, args, kw, st, node, fr)
        return self.opaque_call(f, args, kw, st, node, fr)

    def instantiate(self, c, args, kw, kb, st, node, fr):
        q = c.args[0]
        if self.is_exc_class(q):
            fa = tuple(self.freeze(st, a) for a in args) + \
                tuple(self.freeze(st, v) for _, v in sorted(kw.items()))
            return [(st, T("exc", q, fa))]
        if self.opaque(q):
            for v in kb:
                v = self.norm(st, v)
                kw = dict(kw)
                kw["**"] = v
            return self.opaque_call(c, args, kw, st, node, fr)
        nm = self.class_attr(st, q, "_fields_namedtuple")
        st, ref = self.alloc(st, HObj("inst", cls=q), node, fr)
        init = self.class_attr(st, q, "__init__")
        self.event("new", node, fr, (c,), st)
        if init is None:
            if self.has_ext_base(q):
                o = self.obj(st, ref)
                t = call(c, [self.freeze(st, a) for a in args])
                st = st.set_obj(ref.args[0], o.rep(base=t))
            return [(st, ref)]
        res = []
        for s, _ in self.call_value(T("bound", init, ref), args, kw, kb, st,
                                    node, fr):
            res.append((s, ref))
        return res

    def call_func(self, f, args, kw, kb, st, node, fr):
        qual, closure, dctx = f.args
        fd = self.funcs[qual]
        active = sum(1 for x in self.stack if x[0] == qual)
        if self.opaque(qual) or active >= 2 or len(self.stack) > self.MAXDEPTH:
            self.stats["opaque"].add(qual)
            for v in kb:
                kw = dict(kw)
                kw["**"] = v
            return self.opaque_call(f, args, kw, st, node, fr)
        self.stats["functions"].add(qual)
        ctx = self.intern(("call", fr.ctx, self.nodeidx(node), qual))
        bound = self.bind_args(fd, f, args, kw, kb, st, node, fr)
        if bound is None:
            self.raise_(st, T("exc", "builtins.TypeError", ()))
            return []
        st, env = bound
        selfref = None
        a = fd.node.args
        allpos = a.posonlyargs + a.args
        if fd.cls and allpos:
            selfref = env.get(allpos[0].arg)
        if closure is not None:
            env["$closure"] = T("fid", closure)
        fid = ctx
        saved = st.frames.get(fid)
        st = st.set_frame(fid, env)
        yref = None
        nfr = Frame(fid, fd.mod, fd.cls, qual, ctx, fd.locals, closure,
                    fd.node, frozenset(st.heap), selfref, fd.globals)
        if fd.isgen:
            st, yref = self.alloc(st, HObj("list"), fd.node, nfr)
            st = st.set_var(fid, "$yield", yref)
            nfr.base_ids = nfr.base_ids | frozenset([yref.args[0]])
        self.stack.append((qual, node))
        smark = len(self.sinks[-1])
        try:
            if isinstance(fd.node, ast.Lambda):
                pairs = self.ev(fd.node.body, st, nfr)
            else:
                o = self.exec_block(fd.node.body, [st], nfr)
                pairs = o.ret + [(x, NONE) for x in o.norm]
        finally:
            self.stack.pop()
        if fd.isgen:
            pairs = [(x, yref) for x, _ in pairs]

        def leave(x):
            if saved is not None:
                return x.set_frame(fid, saved)
            if fid in self.captured:
                return x
            return x.drop_frame(fid)
        sk = self.sinks[-1]
        for i in range(smark, len(sk)):
            sk[i] = (leave(sk[i][0]), sk[i][1])
        if len(sk) - smark > 6:
            tail = self.merge_vals(sk[smark:], fr)
            del sk[smark:]
            sk.extend(tail)
        pairs = [(leave(x), v) for x, v in pairs]
        mfr = Frame(fr.fid, fr.mod, fr.cls, fr.func, fr.ctx, fr.locals,
                    fr.closure, fr.node, nfr.base_ids)
        pairs = self.merge_vals(pairs, mfr)
        if len(pairs) > self.JOIN_RETURNS:
            pairs = self.join_returns(pairs, mfr)
        return pairs

    def join_returns(self, pairs, fr):
        """many exits that differ only in a data value: one joined value"""
        groups = {}
        order = []
        for s, v in pairs:
            if is_const(v) or v.op in ("ref", "tuple", "bound", "func",
                                       "class"):
                k = ("keep", len(order))
                groups[k] = [(s, v)]
                order.append(k)
                continue
            k = signature(s, (), fr.base_ids, self.base_heap)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, v))
        out = []
        for k in order:
            g = groups[k]
            vals = []
            for _, v in g:
                for x in (v.args[0] if v.op == "alt" else (v,)):
                    if x not in vals:
                        vals.append(x)
            if len(g) <= self.JOIN_RETURNS or len(vals) == 1:
                out.extend(g)
                continue
            s = g[0][0].clone()
            s.facts, s.eqc = self.join_facts([x for x, _ in g])
            out.append((s, T("alt", frozenset(vals))))
        if len(out) > self.JOIN_RETURNS:
            out = self.join_heaps(out, fr)
        return out

    def join_heaps(self, pairs, fr):
        """exits that differ only in the content of containers"""
        groups = {}
        order = []
        for s, v in pairs:
            env = frozenset((fid, frame_info(f)[0])
                            for fid, f in s.frames.items())
            roots = set(refs_of(v))
            for f in s.frames.values():
                roots |= frame_info(f)[1]
            for x in s.mat.values():
                roots |= refs_of(x)
            live = reach(s, roots, self.base_heap) | fr.base_ids
            shape = frozenset(
                (rid, o.kind if o.kind in ("list", "set", "dict")
                 else o.sig()) for rid, o in s.heap.items()
                if rid in live and self.base_heap.get(rid) is not o)
            k = (env, shape, frozenset(s.mat.items()), v)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, v, live))
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0][:2])
                continue
            sts = [x[0] for x in g]
            live = frozenset().union(*[x[2] for x in g])
            s = sts[0].clone()
            s.facts, s.eqc = self.join_facts(sts)
            common = frozenset.intersection(*[x.facts for x in sts])
            diffs = [x.facts - common for x in sts]
            heap = dict(s.heap)
            ok = True
            for rid in sorted(live, key=str):
                objs = [x.heap.get(rid) for x in sts]
                if any(o is None for o in objs):
                    ok = False
                    break
                if all(o.sig() == objs[0].sig() for o in objs):
                    continue
                j = self.join_objs(objs, diffs)
                if j is None:
                    ok = False
                    break
                heap[rid] = j
            if not ok:
                out.extend(x[:2] for x in g)
                continue
            s.heap = heap
            out.append((s, g[0][1]))
        return out

    def join_objs(self, objs, diffs):
        o = objs[0]
        if any(x.kind != o.kind or x.base is not o.base for x in objs):
            return None
        if o.kind in ("list", "set"):
            n = 0
            if all(not x.open for x in objs):
                while all(len(x.items) > n and
                          x.items[n] is o.items[n] for x in objs):
                    n += 1
            items = o.items[:n]
            if any(x.open for x in objs):
                if all(x.items == o.items for x in objs):
                    items, n = o.items, len(o.items)
                else:
                    items, n = (), 0
            ents = []
            for x, d in zip(objs, diffs):
                for v in x.items[n:]:
                    ents.append((v, d))
                ents.extend(x.summ)
            out = []
            for e in ents:
                if not any(e[0] is v and f <= e[1] for v, f in out):
                    out = [(v, f) for v, f in out
                           if not (v is e[0] and e[1] <= f)]
                    out.append(e)
            ms = o.mapseq if all(x.mapseq == o.mapseq for x in objs) else None
            return o.rep(items=items, summ=tuple(out), open=True, mapseq=ms)
        if o.kind == "dict":
            fields = {}
            ents = []
            keys = []
            for x in objs:
                for k in x.fields:
                    if k not in keys:
                        keys.append(k)
            for k in keys:
                vs = [x.fields.get(k) for x in objs]
                if all(v is vs[0] for v in vs):
                    fields[k] = vs[0]
                    continue
                if any(v is None for v in vs) and o.base is not None:
                    return None
                if any(v is ABSENT for v in vs):
                    if o.base is not None:
                        return None
                for v, d in zip(vs, diffs):
                    if v is not None and v is not ABSENT:
                        e = (k, v, d)
                        if e not in ents:
                            ents.append(e)
                if all(v is not None and v is not ABSENT for v in vs):
                    if len(set(vs)) > 4 or any(refs_of(v) for v in vs):
                        return None
                    ents = [e for e in ents if e[0] is not k]
                    fields[k] = T("alt", frozenset(vs))
            for x in objs:
                for e in x.summ:
                    if e not in ents:
                        ents.append(e)
            return o.rep(fields=fields, summ=tuple(ents))
        if o.kind == "inst":
            if any(x.cls != o.cls for x in objs):
                return None
            fields = {}
            keys = []
            for x in objs:
                for k in x.fields:
                    if k not in keys:
                        keys.append(k)
            for k in keys:
                vs = [x.fields.get(k) for x in objs]
                if all(v is vs[0] for v in vs):
                    fields[k] = vs[0]
                    continue
                if any(v is None for v in vs):
                    if o.base is None:
                        return None
                    vs = [T("attr", o.base, k) if v is None else v
                          for v in vs]
                if any(refs_of(v) or v is UNBOUND or v is ABSENT
                       for v in vs):
                    return None
                fields[k] = self.alts(vs)
            return o.rep(fields=fields)
        return None

    def bind_args(self, fd, f, args, kw, kb, st, node, fr):
        a = fd.node.args
        pos = a.posonlyargs + a.args
        env = {}
        kw = dict(kw)
        bases = []
        for v in kb:
            v = self.norm(st, v)
            if v.op == "dictv":
                st, v = self.thaw(st, v, node, fr)
            if v.op == "ref" and self.obj(st, v).kind == "dict":
                o = self.obj(st, v)
                for k, x in o.fields.items():
                    if x is not ABSENT and is_const(k) and \
                            str(cval(k)) not in kw:
                        kw[str(cval(k))] = x
                if o.base is not None or o.summ:
                    bases.append(o.rep(fields=dict(
                        (k, x) for k, x in o.fields.items()
                        if x is ABSENT)))
            else:
                bases.append(HObj("dict", base=self.freeze(st, v)))
        star = None
        args = list(args)
        if args and args[-1].op == "star":
            star = args.pop().args[0]
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                v = T("item", v.args[0], C(0))
            if i < len(pos):
                env[pos[i].arg] = v
            else:
                rest.append(v)
        nb = len(args)
        if rest and not a.vararg:
            return None
        if a.vararg:
            if star is not None and nb >= len(pos):
                env[a.vararg.arg] = T("slice", star, C(0), NONE, NONE)
            else:
                env[a.vararg.arg] = T("tuple", *rest)
        dkey = ("dflt", self.nodeidx(fd.node), f.args[2])

        def default(d):
            v = st.frames.get(dkey, {}).get(str(self.nodeidx(d)))
            if v is None:
                return T("unknown", self.nodeidx(d))
            return v
        nd = len(a.defaults)
        params = []
        for i, p in enumerate(pos):
            d = None
            j = i - (len(pos) - nd)
            if j >= 0:
                d = a.defaults[j]
            params.append((p.arg, d, i))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            params.append((p.arg, d, None))
        for name, d, i in params:
            if name in env:
                if name in kw:
                    return None
                continue
            if name in kw:
                env[name] = kw.pop(name)
                continue
            if star is not None and i is not None:
                env[name] = mk_item_static(star, C(i - nb))
                continue
            if bases:
                dv = default(d) if d is not None else T("missing")
                val = None
                for o in bases:
                    src = self._dict_snapshot(st, o)
                    val = call(T("builtin", "kwget"), (src, C(name), dv))
                env[name] = val
                continue
            if d is None:
                return None
            env[name] = default(d)
        if a.kwarg:
            fields = dict((C(k), v) for k, v in kw.items())
            base, summ = None, ()
            for o in bases:
                if o.base is not None and base is None:
                    base = o.base
                elif o.base is not None:
                    kk = T("elem", self.site(node, fr),
                           call(T("builtin", "keys"), (o.base,)), ("*",))
                    summ += ((kk, mk_item_static(o.base, kk), frozenset()),)
                summ += o.summ
            st, ref = self.alloc(st, HObj("dict", fields=fields, base=base,
                                          summ=summ), fd.node, fr)
            env[a.kwarg.arg] = ref
        elif kw:
            return None
        return st, env

    def _dict_snapshot(self, st, o):
        def fz(x):
            return self.freeze(st, x)
        if not o.summ and not o.fields and o.base is not None:
            return fz(o.base)
        return T("dictv", tuple((k, fz(v)) for k, v in o.fields.items()
                                if v is not ABSENT or o.summ or
                                o.base is not None),
                 tuple((fz(k), fz(v)) for k, v, _ in o.summ),
                 fz(o.base) if o.base is not None else NONE)

    # ======================================================================
    # entry points
    # ======================================================================
    def entry_frame(self):
        return Frame(("entry",), ADT, None, "<entry>",
                     self.intern(("entry",)), None, None, ast.Module([], []))

    def run_entry(self, qual, env, st=None, bind_self=None):
        """analyse function `qual` with argument values env"""
        if qual not in self.funcs:
            raise AnalysisBroken("anchor %s has vanished" % qual)
        st = st or self.init
        fd = self.funcs[qual]
        fr = self.entry_frame()
        f = T("func", qual, None, self.def_ctx(fd))
        self.sinks = [[]]
        self.stack = []
        self.loopstack = []
        self.unrolled = []
        self.try_depth = 0
        args = dict(env)
        res = self.call_func(f, [], args, [], st, fd.node, fr)
        raised = self.sinks[0]
        return res, raised

    def def_ctx(self, fd):
        if fd.cls:
            return self.intern(("cls", fd.cls, self.intern(("mod", fd.mod))))
        return self.intern(("mod", fd.mod))

    def new_symbolic(self, cls, st=None, havoc=True, name="self"):
        """an instance of `cls` in an arbitrary state: the fields are the ones
        its constructor creates, each with an unknown value"""
        st = st or self.init
        if cls not in self.classes:
            raise AnalysisBroken("anchor class %s has vanished" % cls)
        fr = self.entry_frame()
        node = self.classes[cls]["node"]
        self.sinks = [[]]
        ev, self.record = self.record, False
        need = []
        for k in self.mro(cls):
            fd = self.funcs.get("%s.__init__" % k)
            if fd is not None:
                a = fd.node.args
                names = [x.arg for x in a.args][1:]
                need = [T("param", "init.%s" % x) for x in
                        names[:len(names) - len(a.defaults)]]
                break
        r = self.instantiate(T("class", cls), need, {}, [], st, node, fr)
        self.record = ev
        if not r:
            raise AnalysisBroken("constructor of %s has no normal exit" % cls)
        st, ref = r[0]
        if not havoc:
            return st, ref
        o = self.obj(st, ref)
        fields = {}
        for k, v in o.fields.items():
            p = T("param", "%s.%s" % (name, k))
            if v.op == "ref" and self.obj(st, v).kind == "dict":
                st = st.set_obj(v.args[0], HObj("dict", base=p))
                fields[k] = v
            else:
                fields[k] = p
        st = st.set_obj(ref.args[0], o.rep(fields=fields))
        st = st.clone()
        st.facts = frozenset()
        st.eqc = {}
        return st, ref


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t


def _dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return _dotted(e.value) + "." + e.attr
    if isinstance(e, ast.Call):
        return _dotted(e.func)
    return "?"
