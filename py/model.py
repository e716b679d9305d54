"""Independent model of weighted transducers (tropical, plain Python): the oracle's side."""
import struct

INF = float("inf")


class Model:
    """A machine as the monitor believes it to be. tables: list of symbols or None."""

    def __init__(self):
        self.start = None
        self.fin = []   # None or float
        self.arcs = []  # lists of (ilabel, olabel, weight, next)
        self.isym = None
        self.osym = None

    def clone(self):
        m = Model()
        m.start = self.start
        m.fin = list(self.fin)
        m.arcs = [list(a) for a in self.arcs]
        m.isym = None if self.isym is None else list(self.isym)
        m.osym = None if self.osym is None else list(self.osym)
        return m

    def n(self):
        return len(self.fin)

    def key(self):
        return (self.start, tuple(self.fin), tuple(tuple(a) for a in self.arcs))

    def acceptor(self):
        return all(a[0] == a[1] for l in self.arcs for a in l)

    def acyclic(self):
        n = self.n()
        color = [0] * n
        for r in range(n):
            if color[r]:
                continue
            st = [(r, 0)]
            color[r] = 1
            while st:
                q, i = st.pop()
                if i < len(self.arcs[q]):
                    st.append((q, i + 1))
                    t = self.arcs[q][i][3]
                    if color[t] == 1:
                        return False
                    if color[t] == 0:
                        color[t] = 1
                        st.append((t, 0))
                else:
                    color[q] = 2
        return True

    def accessible(self):
        seen = set()
        if self.start is None:
            return seen
        st = [self.start]
        seen.add(self.start)
        while st:
            q = st.pop()
            for a in self.arcs[q]:
                if a[3] not in seen:
                    seen.add(a[3])
                    st.append(a[3])
        return seen

    def coaccessible(self):
        rev = [[] for _ in self.fin]
        for q, l in enumerate(self.arcs):
            for a in l:
                rev[a[3]].append(q)
        st = [q for q in range(self.n()) if self.fin[q] is not None]
        seen = set(st)
        while st:
            q = st.pop()
            for p in rev[q]:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def paths(self, limit=3000):
        """All successful paths of an acyclic machine as (labels pairs with epsilons, weight); None if too many."""
        out = []
        if self.start is None:
            return out
        co = self.coaccessible()
        if self.start not in co:
            return out
        st = [(self.start, (), 0.0)]
        while st:
            q, p, w = st.pop()
            if self.fin[q] is not None:
                out.append((p, w + self.fin[q]))
            for (i, o, x, t) in self.arcs[q]:
                if t in co:
                    st.append((t, p + ((i, o),), w + x))
            if len(out) + len(st) > limit:
                return None
        return out


def istr(p):
    return tuple(i for i, _ in p if i)


def ostr(p):
    return tuple(o for _, o in p if o)


def relation(paths):
    r = {}
    for p, w in paths:
        k = (istr(p), ostr(p))
        if w < r.get(k, INF):
            r[k] = w
    return r


def rel_union(a, b):
    r = dict(a)
    for k, w in b.items():
        r[k] = min(w, r.get(k, INF))
    return r


def rel_concat(a, b):
    r = {}
    for (i, o), w in a.items():
        for (j, p), x in b.items():
            k = (i + j, o + p)
            r[k] = min(r.get(k, INF), w + x)
    return r


def rel_compose(a, b):
    by = {}
    for (j, p), x in b.items():
        by.setdefault(j, []).append((p, x))
    r = {}
    for (i, o), w in a.items():
        for p, x in by.get(o, ()):
            k = (i, p)
            r[k] = min(r.get(k, INF), w + x)
    return r


def rel_reverse(a):
    return {(i[::-1], o[::-1]): w for (i, o), w in a.items()}


def rel_project(a, side):
    r = {}
    for k, w in a.items():
        s = k[side]
        r[(s, s)] = min(w, r.get((s, s), INF))
    return r


def same_rel(a, b, tol=0.0):
    if a.keys() != b.keys():
        return False
    return all(abs(a[k] - b[k]) <= tol for k in a)


def diff_rel(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(f"{k}: expected {a.get(k)} got {b.get(k)}")
    return "; ".join(out[:4])


def expand(root, fsts, keep_input, depth=6):
    """Relation of the replacement of non-terminals in acyclic, non-recursive machines."""
    rels = {}

    def rel_of(m):
        r = {}
        for p, w in m.paths() or []:
            parts = {((), ()): w}
            for (i, o) in p:
                if o in fsts:
                    sub = rel_of_label(o)
                    head = ((i,) if (keep_input and i) else (), ())
                    parts = rel_concat(parts, {head: 0.0})
                    parts = rel_concat(parts, sub)
                else:
                    parts = rel_concat(parts, {((i,) if i else (), (o,) if o else ()): 0.0})
            r = rel_union(r, parts)
        return r

    def rel_of_label(l):
        if l not in rels:
            rels[l] = rel_of(fsts[l])
        return rels[l]

    return rel_of(root)


def enc_str(s):
    b = s if isinstance(s, bytes) else s.encode()
    return struct.pack("<i", len(b)) + b


def enc_table(syms):
    o = struct.pack("<i", 2125658996) + enc_str("rustfst_symboltable") + struct.pack("<qq", len(syms), len(syms))
    for i, s in enumerate(syms):
        o += enc_str(s) + struct.pack("<q", i)
    return o


def enc(m, kind):
    """The OpenFst file layout, written independently of the library."""
    o = struct.pack("<i", 2125659606) + enc_str(kind) + enc_str("standard")
    o += struct.pack("<ii", 2, (m.isym is not None) | (m.osym is not None) << 1)
    o += struct.pack("<Q", 0)
    o += struct.pack("<qqq", -1 if m.start is None else m.start, m.n(), sum(len(a) for a in m.arcs))
    for t in (m.isym, m.osym):
        if t is not None:
            o += enc_table(t)
    f = lambda q: INF if m.fin[q] is None else m.fin[q]
    arc = lambda a: struct.pack("<iifi", *a)
    if kind == "vector":
        for q in range(m.n()):
            o += struct.pack("<fq", f(q), len(m.arcs[q])) + b"".join(arc(a) for a in m.arcs[q])
    else:
        pos = 0
        for q in range(m.n()):
            l = m.arcs[q]
            o += struct.pack("<fiiii", f(q), pos, len(l), sum(a[0] == 0 for a in l), sum(a[1] == 0 for a in l))
            pos += len(l)
        for l in m.arcs:
            o += b"".join(arc(a) for a in l)
    return o
