"""Abstract states: frames, heap, guard facts."""
from .terms import T, C, NONE, TRUE, FALSE, is_const, cval, subterms, children
from .terms import rebuild, refs_of

ABSENT = T("absent")
UNBOUND = T("unbound")


class HObj(object):
    """An abstract heap object (immutable; replaced on write)."""
    __slots__ = ("kind", "cls", "fields", "base", "items", "summ", "open",
                 "mapseq", "term", "_sig", "_refs")

    def __init__(self, kind, cls=None, fields=None, base=None, items=(),
                 summ=(), open=False, mapseq=None, term=None):
        self.kind = kind          # inst, dict, list, set, ext
        self.cls = cls            # class qualname (inst)
        self.fields = fields if fields is not None else {}
        self.base = base          # unknown original content
        self.items = items        # list: exact prefix
        self.summ = summ          # list: ((val, facts),..) dict: ((k,v,facts),..)
        self.open = open          # list: has a summarised tail
        self.mapseq = mapseq      # (elem, body, iterable): tail[i] = body[elem:=it[i]]
        self.term = term          # ext: current term
        self._sig = None
        self._refs = None

    def rep(self, **kw):
        d = dict(kind=self.kind, cls=self.cls, fields=self.fields,
                 base=self.base, items=self.items, summ=self.summ,
                 open=self.open, mapseq=self.mapseq, term=self.term)
        d.update(kw)
        return HObj(**d)

    def with_field(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return self.rep(fields=f)

    def sig(self):
        if self._sig is None:
            self._sig = (self.kind, self.cls, frozenset(self.fields.items()),
                         self.base, self.items, frozenset(self.summ),
                         self.open, self.mapseq, self.term)
        return self._sig

    def terms(self):
        for v in self.fields.values():
            yield v
        if self.base is not None:
            yield self.base
        for v in self.items:
            yield v
        for e in self.summ:
            for x in e:
                if isinstance(x, T):
                    yield x
        if self.term is not None:
            yield self.term

    def map(self, f):
        def ff(facts):
            return frozenset((f(a), p) for a, p in facts)
        fields = {}
        for k, v in self.fields.items():
            fields[k] = f(v)
        return HObj(self.kind, self.cls, fields,
                    f(self.base) if self.base is not None else None,
                    tuple(f(x) for x in self.items),
                    tuple(tuple(f(x) if isinstance(x, T) else ff(x)
                                for x in e) for e in self.summ),
                    self.open, self.mapseq and tuple(f(x) for x in self.mapseq),
                    f(self.term) if self.term is not None else None)


class State(object):
    __slots__ = ("frames", "heap", "facts", "eqc", "mat")
    base_frames = {}
    base_heap = {}

    def __init__(self, frames, heap, facts, eqc, mat):
        self.frames = frames
        self.heap = heap
        self.facts = facts
        self.eqc = eqc
        self.mat = mat

    def clone(self):
        return State(self.frames, self.heap, self.facts, self.eqc, self.mat)

    def set_var(self, fid, name, val):
        s = self.clone()
        fr = FD(self.frames.get(fid, ()))
        fr[name] = val
        f = dict(self.frames)
        f[fid] = fr
        s.frames = f
        return s

    def del_var(self, fid, name):
        s = self.clone()
        fr = FD(self.frames.get(fid, ()))
        fr.pop(name, None)
        f = dict(self.frames)
        f[fid] = fr
        s.frames = f
        return s

    def set_frame(self, fid, d):
        s = self.clone()
        f = dict(self.frames)
        f[fid] = FD(d)
        s.frames = f
        return s

    def drop_frame(self, fid):
        if fid not in self.frames:
            return self
        s = self.clone()
        f = dict(self.frames)
        del f[fid]
        s.frames = f
        return s

    def set_obj(self, rid, obj):
        s = self.clone()
        h = dict(self.heap)
        h[rid] = obj
        s.heap = h
        return s

    def set_mat(self, t, ref):
        s = self.clone()
        m = dict(self.mat)
        m[t] = ref
        s.mat = m
        return s

    def add_fact(self, atom, pol):
        if (atom, pol) in self.facts:
            return self
        s = self.clone()
        s.facts = self.facts | {(atom, pol)}
        return s

    def set_eqc(self, t, c):
        s = self.clone()
        m = dict(self.eqc)
        m[t] = c
        s.eqc = m
        return s

    def map_terms(self, f):
        """apply a term rewriting to the whole state"""
        s = self.clone()
        frames = self.frames
        changed = False
        bf, bh = self.base_frames, self.base_heap
        for fid, fr in self.frames.items():
            if bf.get(fid) is fr:
                continue
            nf = None
            for k, v in fr.items():
                w = f(v)
                if w is not v:
                    if nf is None:
                        nf = FD(fr)
                    nf[k] = w
            if nf is not None:
                if not changed:
                    frames = dict(frames)
                    changed = True
                frames[fid] = nf
        s.frames = frames
        heap = self.heap
        changed = False
        for rid, o in self.heap.items():
            if bh.get(rid) is o:
                continue
            if any(f(x) is not x for x in o.terms()):
                if not changed:
                    heap = dict(heap)
                    changed = True
                heap[rid] = o.map(f)
        s.heap = heap
        s.facts = frozenset((f(a), p) for a, p in self.facts)
        s.eqc = dict((f(a), b) for a, b in self.eqc.items())
        s.mat = dict((f(a), b) for a, b in self.mat.items())
        return s


class FD(dict):
    """a frame (never modified once part of a state); caches its signature"""
    __slots__ = ("sig", "refs")

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.sig = None
        self.refs = None


def frame_info(fr):
    if fr.__class__ is not FD:
        return frozenset(fr.items()), refs_union(fr.values())
    if fr.sig is None:
        fr.sig = frozenset(fr.items())
        fr.refs = refs_union(fr.values())
    return fr.sig, fr.refs


def refs_union(ts):
    ss = set(refs_of(t) for t in ts)
    return frozenset().union(*ss) if ss else frozenset()


def reach(st, stack, base_heap):
    seen = set()
    stack = list(stack)
    heap = st.heap
    while stack:
        r = stack.pop()
        rid = r.args[0]
        if rid in seen:
            continue
        seen.add(rid)
        o = heap.get(rid)
        if o is None or base_heap.get(rid) is o:
            continue
        if o._refs is None:
            o._refs = refs_union(o.terms())
        stack.extend(o._refs)
    return seen


def signature(st, extra, base_ids, base_heap):
    env = []
    roots = set()
    for fid, fr in st.frames.items():
        sg, rf = frame_info(fr)
        env.append((fid, sg))
        if rf:
            roots |= rf
    for x in extra:
        roots |= refs_of(x)
    for x in st.mat.values():
        roots |= refs_of(x)
    live = reach(st, roots, base_heap)
    heap = frozenset((rid, o.sig()) for rid, o in st.heap.items()
                     if base_heap.get(rid) is not o and
                     (rid in live or rid in base_ids))
    return (frozenset(env), heap, frozenset(st.mat.items()), tuple(extra))


def reduce_facts(groups):
    """Exact reduction of a union of fact sets: subsumption, and merging of
    two sets that differ in one complementary fact."""
    sets = []
    seen = set()
    for g in groups:
        if g not in seen:
            seen.add(g)
            sets.append(g)
    if len(sets) > 200:
        return sets
    changed = True
    while changed and len(sets) > 1:
        changed = False
        sets.sort(key=len)
        # subsumption
        out = []
        for s in sets:
            if not any(o <= s for o in out):
                out.append(s)
        if len(out) != len(sets):
            changed = True
        sets = out
        n = len(sets)
        done = False
        for i in range(n):
            for j in range(i + 1, n):
                a, b = sets[i], sets[j]
                da, db = a - b, b - a
                if len(da) == 1:
                    (x, p), = da
                    if (x, not p) in db:
                        # a = c+{x}, b = c+{!x}+rest : b minus !x is weaker
                        if len(db) == 1:
                            sets = [s for k, s in enumerate(sets)
                                    if k not in (i, j)] + [a & b]
                        else:
                            sets[j] = b - {(x, not p)}
                        done = changed = True
                        break
                elif len(db) == 1:
                    (x, p), = db
                    if (x, not p) in da:
                        sets[i] = a - {(x, not p)}
                        done = changed = True
                        break
            if done:
                break
    return sets


def eqc_of(facts):
    m = {}
    for a, p in facts:
        if not p:
            continue
        if a.op == "cmp" and a.args[0] in ("eq", "is"):
            x, y = a.args[1], a.args[2]
            if is_const(y) and not is_const(x):
                m[x] = y
            elif is_const(x) and not is_const(y):
                m[y] = x
    return m
