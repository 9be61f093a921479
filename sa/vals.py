"""Abstract values: constants, aggregates, sequences, references and provenance terms (value numbers)."""


class T:
    """An opaque value, identified by where it came from. Hash-consed: equal provenance means the same object."""
    __slots__ = ("op", "a", "_h", "n", "_r", "_g")
    _tab = {}

    def __new__(cls, op, *a):
        k = (op, a)
        x = cls._tab.get(k)
        if x is None:
            x = object.__new__(cls)
            x.op, x.a, x._h, x.n, x._r, x._g = op, a, hash(k), len(cls._tab), None, 0
            cls._tab[k] = x
        return x

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self._r is None:
            self._r = short(f"{self.op}({', '.join(map(short, self.a))})" if self.a else self.op, 600)
        return self._r


class Agg:
    __slots__ = ("tag", "var", "f", "_h")

    def __init__(self, tag, var, f):
        self.tag, self.var, self.f, self._h = tag, var, tuple(f), None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.tag, self.var, self.f))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and hash(self) == hash(o) and (self.tag, self.var, self.f) == (o.tag, o.var, o.f))

    def __repr__(self):
        t = self.tag.rsplit("::", 1)[-1]
        v = f"#{self.var}" if self.var is not None else ""
        return f"{t}{v}[{', '.join(map(short, self.f))}]"


class Chunk:
    """A stretch of bytes of unknown length inside a sequence."""
    __slots__ = ("kind", "x")

    def __init__(self, kind, x):
        self.kind, self.x = kind, x

    def __hash__(self):
        return hash((self.kind, self.x))

    def __eq__(self, o):
        return isinstance(o, Chunk) and (self.kind, self.x) == (o.kind, o.x)

    def __repr__(self):
        return f"<{self.kind} {short(self.x)}>"


class Seq:
    """A vector, array or slice with known elements (some of which may be chunks)."""
    __slots__ = ("items", "_h")

    def __init__(self, items=()):
        self.items, self._h = tuple(items), None

    def __hash__(self):
        if self._h is None:
            self._h = hash(("seq", self.items))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and hash(self) == hash(o) and self.items == o.items)

    def chunks(self):
        return any(isinstance(x, Chunk) for x in self.items)

    def __repr__(self):
        if len(self.items) > 24:
            return f"[{', '.join(map(short, self.items[:10]))} .. {len(self.items)} items]"
        return f"[{', '.join(map(short, self.items))}]"


class Str:
    """A string made of literal and opaque parts."""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, Str):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        self.parts = tuple(out)

    def const(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __hash__(self):
        return hash(("str", self.parts))

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __repr__(self):
        return "+".join(repr(p) if isinstance(p, str) else f"{{{short(p)}}}" for p in self.parts) or '""'


class Ref:
    """A mutable reference: a cell and a path inside it."""
    __slots__ = ("cell", "proj")

    def __init__(self, cell, proj=()):
        self.cell, self.proj = cell, proj

    def __hash__(self):
        return hash(("ref", self.cell, self.proj))

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.cell, self.proj) == (o.cell, o.proj)

    def __repr__(self):
        return f"&mut {self.cell}{list(self.proj) if self.proj else ''}"


class MapV:
    """A map: an opaque base (or None when it started empty) and the changes made to it.

    over: tuple of (key, value or ABSENT); later entries win."""
    __slots__ = ("base", "over")

    def __init__(self, base=None, over=()):
        self.base, self.over = base, tuple(over)

    def __hash__(self):
        return hash(("map", self.base, self.over))

    def __eq__(self, o):
        return isinstance(o, MapV) and (self.base, self.over) == (o.base, o.over)

    def __repr__(self):
        return f"map({short(self.base)}; {', '.join(f'{short(k)}: {short(v)}' for k, v in self.over)})"


class Sent:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


MOVED, UNINIT, ABSENT = Sent("<moved>"), Sent("<uninit>"), Sent("<absent>")
UNIT = Agg("tuple", None, ())
OPT, RES, CF, ORD = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "core::cmp::Ordering"
POLL = "core::task::poll::Poll"
NONE = Agg(OPT, 0, ())


def some(x):
    return Agg(OPT, 1, (x,))


def ok(x):
    return Agg(RES, 0, (x,))


def err(x):
    return Agg(RES, 1, (x,))


def tup(*x):
    return Agg("tuple", None, x)


def short(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + ".."


def okey(x):
    """an order of terms that is the same in every run"""
    if isinstance(x, T):
        return 1, x.n, ""
    if isinstance(x, int):
        return 0, x, ""
    return 2, 0, repr(x)


def is_int(x):
    return isinstance(x, int)


def subterms(x, seen=None):
    """every term inside a value"""
    st = [x]
    seen = set()
    while st:
        v = st.pop()
        if isinstance(v, (T, Agg, Seq, Str, Chunk, MapV)):
            if v in seen:
                continue
            seen.add(v)
        if isinstance(v, T):
            yield v
            st.extend(v.a)
        elif isinstance(v, Agg):
            st.extend(v.f)
        elif isinstance(v, Seq):
            st.extend(v.items)
        elif isinstance(v, Str):
            st.extend(p for p in v.parts if not isinstance(p, str))
        elif isinstance(v, Chunk):
            st.append(v.x)
        elif isinstance(v, MapV):
            st.append(v.base)
            for k, w in v.over:
                st.append(k)
                st.append(w)
        elif isinstance(v, tuple):
            st.extend(v)


GUESSES = {"call", "havoc", "queryvalue"}


def guess(t):
    """the name of a call inside a term that has no model, or None"""
    if t._g == 0:
        t._g = next((q.a[0] if q.a and isinstance(q.a[0], str) else q.op for q in subterms(t) if q.op in GUESSES or q.op == "fld" and isinstance(q.a[0], T) and q.a[0].op == "Int"), None)
    return t._g
