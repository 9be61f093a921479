"""Path-sensitive, interprocedural abstract interpretation of MIR.

Values are constants, aggregates, sequences and provenance terms (value numbers); branches on unknown values are
followed both ways with the branch condition recorded as an interval, variant or linear fact. No solver is involved:
a condition is either decided by those facts or left open. What cannot be modelled becomes an opaque term and the path
is marked, so that a check can tell "differs" from "not decided"."""
import copy, os, re, time
from vals import *

WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
         "i128": 128, "isize": 64, "bool": 1, "char": 32, "f32": 32, "f64": 64}
SIGNED = {"i8", "i16", "i32", "i64", "i128", "isize"}


def ty_range(t):
    if t in SIGNED:
        w = WIDTH[t]
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    if t == "char":
        return 0, 0x10FFFF
    if t in WIDTH and t not in ("f32", "f64"):
        return 0, (1 << WIDTH[t]) - 1
    return None


def wrap(v, t):
    r = ty_range(t)
    if r is None:
        return v
    w = WIDTH[t]
    v &= (1 << w) - 1
    if t in SIGNED and v >> (w - 1):
        v -= 1 << w
    return v


class Stop:
    """A path that does not return: kind is panic, cut (analysis bound) or diverge."""

    def __init__(self, kind, info):
        self.kind, self.info = kind, info

    def __repr__(self):
        return f"<{self.kind}: {self.info}>"


class Infeasible(Exception):
    pass


#when the whole check has to be done: what is not decided by then stays undecided
END = [time.time() + (780 if os.environ.get("VERIF_TIER") == "thorough" else 420)]


class Budget(Exception):
    pass


class State:
    __slots__ = ("cells", "iv", "bt", "lin", "events", "notes", "x")

    def __init__(self):
        self.cells, self.iv, self.bt, self.lin, self.events, self.notes, self.x = {}, {}, {}, [], [], [], {}

    def copy(self):
        s = State.__new__(State)
        s.cells, s.iv, s.bt, s.lin = dict(self.cells), dict(self.iv), dict(self.bt), list(self.lin)
        s.events, s.notes, s.x = list(self.events), list(self.notes), dict(self.x)
        return s

    def note(self, n):
        if n not in self.notes:
            self.notes.append(n)

    def ev(self, *e):
        self.events.append(e)


class Frame:
    __slots__ = ("fn", "body", "cells", "subst", "depth", "promo")

    def __init__(self, fn, body, cells, subst, depth):
        self.fn, self.body, self.cells, self.subst, self.depth, self.promo = fn, body, cells, subst, depth, {}


class Call:
    __slots__ = ("fc", "frame", "span", "dest_ty", "target", "key", "argtys")


def strip_generics(p):
    """removes ::<...> turbofish parts, keeping <A as B>:: and <impl X> forms"""
    out, i = [], 0
    while i < len(p):
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            d, j = 0, i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


def split_path(p):
    parts, d, cur = [], 0, ""
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        if d == 0 and p.startswith("::", i):
            parts.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    parts.append(cur)
    return parts


_norm_cache = {}


def norm(p):
    r = _norm_cache.get(p)
    if r is None:
        ps = split_path(strip_generics(p))
        q = ps[-2:]
        if len(q) == 2 and q[0].startswith("<impl "):
            t = q[0][6:-1]
            if " for " in t:
                t = t.split(" for ", 1)[1]
            q[0] = strip_generics(t)
        r = _norm_cache[p] = "::".join(q)
    return r


class Interp:
    def __init__(self, prog, hooks=None, models=None, max_visits=700, max_paths=4000, max_steps=2_000_000, opaque_max=2, depth_max=60):
        self.P = prog
        self.hooks = hooks or {}
        if models is None:
            import stdmodels, models2
            models = stdmodels.MODELS
        self.models = models
        self.max_visits, self.max_paths, self.max_steps, self.opaque_max, self.depth_max = max_visits, max_paths, max_steps, opaque_max, depth_max
        self.ncell = 0
        self.nfresh = 0
        self.steps = 0
        self.current = [None, None]
        self.unknown = {}
        self.analysed = set()
        self.cuts = []
        self.stack, self.substs = [], []
        self.on_recursion = self.on_made = None
        self.merge = False
        self.panics = False     #whether conditions asserted at run time are explored in both directions
        self.range_max = None   #how many times a loop over a range with an unknown end is followed
        self.long = []          #loops that go on for longer
        self.after = None       #called with the result of every call
        self.budget_s = 120
        self.deadline = time.time() + 1e9
        self.impls = prog.__dict__.get("_impls")
        if self.impls is None:
            self.impls = {}
            for p, f in prog.fns.items():
                if f.trait and f.self_ty is not None:
                    ta = tuple(f.types[x]["s"] if isinstance(x, int) else str(x) for x in f.j.get("ta", [])[1:])
                    self.impls[(f.trait, f.self_ty, ta, f.name)] = f
                    self.impls.setdefault((f.trait, f.self_ty, None, f.name), f)
            prog._impls = self.impls

    def by_tag(self):
        """the implementation of a trait method for a type of this program, where there is only one"""
        r = self.P.__dict__.get("_by_tag")
        if r is None:
            r = {}
            for p, f in self.P.fns.items():
                if f.trait and f.self_ty is not None:
                    k = f.trait, strip_generics(f.self_ty).split("<")[0], f.name
                    r[k] = None if k in r else f
            self.P._by_tag = r
        return r

    # ---- cells -----------------------------------------------------------------------------------------------------
    def cell(self, st, v=UNINIT):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def fresh(self, what, *a):
        self.nfresh += 1
        return T("fresh", what, self.nfresh, *a)

    def load(self, st, v):
        """what a (mutable) reference points at; anything else is its own pointee"""
        n = 0
        while isinstance(v, Ref):
            v = self.load_loc(st, v.cell, v.proj)
            n += 1
            if n > 20:
                return self.fresh("loop")
        return v

    def load_loc(self, st, cell, proj):
        v = st.cells.get(cell, UNINIT)
        for e in proj:
            v = self.nav(st, v, e)
        return v

    def nav(self, st, v, e):
        if isinstance(v, Ref):
            v = self.load(st, v)
        k = e[0]
        if k == "f":
            i = e[1]
            if isinstance(v, Agg):
                if i < len(v.f):
                    return v.f[i]
                return self.fresh("nofield")
            if isinstance(v, T):
                if v.op == "dc":
                    return T("fld", v.a[0], v.a[1], i)
                return T("fld", v, None, i)
            if isinstance(v, (Seq, Str, MapV)) and i == 0:
                #newtypes around a container that are modelled as the container itself
                return v
            if v is UNINIT or v is MOVED:
                return v
            return self.fresh("field-of", type(v).__name__)
        if k == "d":
            if isinstance(v, T):
                return T("dc", v, e[1])
            return v
        if k == "i":
            i = e[1]
            if isinstance(v, Seq):
                if is_int(i) and 0 <= i < len(v.items) and not any(isinstance(x, Chunk) for x in v.items[:i + 1]):
                    return v.items[i]
                return T("idx", v, i)
            return T("idx", v, i) if isinstance(v, (T, Seq, Str)) else self.fresh("index")
        if k == "mv":
            if isinstance(v, MapV):
                for kk, x in reversed(v.over):
                    if kk == e[1]:
                        return x
                return T("get", v.base, e[1])
            return T("get", v, e[1])
        if k == "ss":
            if isinstance(v, Seq) and not v.chunks():
                fr, to, fe = e[1], e[2], e[3]
                return Seq(v.items[fr:len(v.items) - to] if fe else v.items[fr:to])
            return T("subslice", v, *e[1:])
        return v

    def store_loc(self, st, cell, proj, val):
        if not proj:
            st.cells[cell] = val
            return
        st.cells[cell] = self.upd(st, st.cells.get(cell, UNINIT), proj, 0, val)

    def upd(self, st, v, proj, n, val):
        if n == len(proj):
            return val
        if isinstance(v, Ref):
            tgt = v
            cur = self.load_loc(st, tgt.cell, tgt.proj)
            self.store_loc(st, tgt.cell, tgt.proj, self.upd(st, cur, proj, n, val))
            return v
        e = proj[n]
        k = e[0]
        if k == "d":
            if isinstance(v, T) and n + 1 < len(proj) and proj[n + 1][0] == "f":
                #a field of a known variant of an opaque value: expand it
                i = proj[n + 1][1]
                nf = max(i + 1, e[2] if len(e) > 2 and e[2] else 0)
                f = [T("fld", v, e[1], q) for q in range(nf)]
                a = Agg(e[3] if len(e) > 3 else "?", e[1], f)
                return self.upd(st, a, proj, n + 1, val)
            return self.upd(st, v, proj, n + 1, val)
        if k == "f":
            i = e[1]
            if isinstance(v, Agg) and v.tag == "boxuninit":
                #vec![..] and Box::new: the wrappers around the uninitialised content are not tracked
                if all(x[0] == "f" for x in proj[n:]):
                    return Agg("boxuninit", None, (val,))
                return Agg("boxuninit", None, (self.upd(st, v.f[0], proj, n + 3, val),))
            if isinstance(v, Agg) and i < len(v.f):
                f = list(v.f)
                f[i] = self.upd(st, f[i], proj, n + 1, val)
                return Agg(v.tag, v.var, f)
            if isinstance(v, T):
                nf = max(i + 1, e[2] if len(e) > 2 and e[2] else 0)
                f = [T("fld", v, None, q) for q in range(nf)]
                f[i] = self.upd(st, f[i], proj, n + 1, val)
                return Agg(e[3] if len(e) > 3 and e[3] else "?", None, f)
            if isinstance(v, (Seq, Str, MapV)) and i == 0:
                return self.upd(st, v, proj, n + 1, val)
            if v is MOVED or v is UNINIT:
                return v
            st.note("store into unknown shape")
            return self.fresh("store")
        if k == "i":
            i = e[1]
            if isinstance(v, Seq) and is_int(i) and 0 <= i < len(v.items) and not v.chunks():
                it = list(v.items)
                it[i] = self.upd(st, it[i], proj, n + 1, val)
                return Seq(it)
            return T("stored", v, i, self.upd(st, self.nav(st, v, e), proj, n + 1, val)) if isinstance(v, (T, Seq)) else self.fresh("store")
        if k == "mv":
            m = v if isinstance(v, MapV) else MapV(v)
            new = self.upd(st, self.nav(st, v, e), proj, n + 1, val)
            return MapV(m.base, [x for x in m.over if x[0] != e[1]] + [(e[1], new)])
        if k == "ss" and isinstance(v, Seq) and not v.chunks():
            fr, to = e[1], (len(v.items) - e[2] if e[3] else e[2])
            new = self.upd(st, Seq(v.items[fr:to]), proj, n + 1, val)
            if isinstance(new, Seq) and not new.chunks() and len(new.items) == to - fr:
                return Seq(tuple(v.items[:fr]) + tuple(new.items) + tuple(v.items[to:]))
        st.note("store through slice")
        return self.fresh("store")

    def store(self, st, ref, val):
        if isinstance(ref, Ref):
            self.store_loc(st, ref.cell, ref.proj, val)
        else:
            st.note("store through opaque reference")
            st.ev("opaque-store", ref, val)

    # ---- places ----------------------------------------------------------------------------------------------------
    def adt_fields(self, ty, variant=None):
        if ty and ty.get("k") == "adt":
            a = self.P.adts.get(ty["p"])
            if a and a["v"]:
                v = a["v"][variant or 0]
                return len(v["f"]), ty["p"]
        if ty and ty.get("k") == "tuple":
            return len(ty["a"]), "tuple"
        return None, None

    def place_loc(self, st, fr, p):
        cell, proj = fr.cells[p[0]], ()
        ty = fr.fn.types[fr.body["locals"][p[0]][0]]
        for e in p[1:]:
            if e == "*":
                v = self.load_loc(st, cell, proj)
                if isinstance(v, Ref):
                    cell, proj = v.cell, v.proj
                if ty and ty.get("k") in ("ref", "ptr"):
                    ty = fr.fn.types[ty["t"]]
                elif ty and ty.get("k") == "adt" and ty["a"] and isinstance(ty["a"][0], int):
                    ty = fr.fn.types[ty["a"][0]]
                else:
                    ty = None
                continue
            k = e[0]
            if k == "f":
                v = self.load_loc(st, cell, proj) if proj or True else None
                if isinstance(v, Ref):
                    cell, proj = v.cell, v.proj
                nf, tag = self.adt_fields(ty)
                proj = proj + (("f", e[1], nf, tag),)
                ty = fr.fn.types[e[2]]
            elif k == "d":
                nf, tag = self.adt_fields(ty, e[1])
                proj = proj + (("d", e[1], nf, tag),)
            elif k == "i":
                i = self.load_loc(st, fr.cells[e[1]], ())
                proj = proj + (("i", self.simp(st, i)),)
                ty = fr.fn.types[ty["t"]] if ty and "t" in ty else None
            elif k == "ci":
                off = e[1]
                if e[3]:
                    v = self.load_loc(st, cell, proj)
                    if isinstance(v, Seq) and not v.chunks():
                        off = len(v.items) - off
                    else:
                        off = T("fromend", off)
                proj = proj + (("i", off),)
                ty = fr.fn.types[ty["t"]] if ty and "t" in ty else None
            elif k == "ss":
                proj = proj + (("ss", e[1], e[2], e[3]),)
        return cell, proj

    def read_place(self, st, fr, p):
        if len(p) == 1:
            return st.cells.get(fr.cells[p[0]], UNINIT)
        c, pr = self.place_loc(st, fr, p)
        return self.load_loc(st, c, pr)

    def place_ty(self, fr, p):
        T_ = fr.fn.types
        ty = T_[fr.body["locals"][p[0]][0]]
        for e in p[1:]:
            if e == "*":
                if ty.get("k") in ("ref", "ptr"):
                    ty = T_[ty["t"]]
                elif ty.get("k") == "adt" and ty["a"] and isinstance(ty["a"][0], int):
                    ty = T_[ty["a"][0]]
            elif e[0] == "f":
                ty = T_[e[2]]
            elif e[0] in ("i", "ci"):
                if "t" in ty:
                    ty = T_[ty["t"]]
        return ty

    def op_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        return fr.fn.types[o[1]["ty"]] if "ty" in o[1] else {"s": "?"}

    def tystr(self, fr, ty):
        s = ty["s"]
        if ty.get("k") == "param" and s in fr.subst:
            x = fr.subst[s]
            return x if isinstance(x, str) else str(x)
        return s

    # ---- operands --------------------------------------------------------------------------------------------------
    def const(self, st, fr, c):
        k = c["c"]
        if k == "int":
            t = fr.fn.types[c["ty"]]["s"] if "ty" in c else ""
            if t in ("f32", "f64"):
                return T("fconst", c["v"], t)
            return c["v"]
        if k == "str":
            return Str((c["v"],))
        if k == "bytes":
            return Seq(c["v"])
        if k == "fn":
            return T("fn", FnRef(c["f"], fr))
        if k == "promoted":
            return self.promoted(st, fr, c["v"])
        if k == "ref":
            return self.const(st, fr, c["v"])
        if k == "agg":
            ty = fr.fn.types[c["ty"]]
            f = [self.const(st, fr, x) for x in c["f"]]
            if ty["k"] == "array":
                return Seq(f)
            if ty["k"] == "tuple":
                return tup(*f)
            if ty["k"] == "adt":
                return Agg(ty["p"], (c["var"] or 0), f)
        if k == "zst":
            ty = fr.fn.types[c["ty"]] if "ty" in c else {}
            if ty.get("k") == "closure":
                return Agg("closure:" + ty["p"], None, ())
            if ty.get("k") == "adt":
                return Agg(ty["p"], 0, ())
            return UNIT
        if k == "static":
            if c.get("v") and c["v"]["c"] not in ("opaque",):
                return self.const(st, fr, c["v"])
            return T("static", c["p"])
        if "tc" in c and c["tc"] in fr.subst:
            x = fr.subst[c["tc"]]
            if is_int(x):
                return x
        if "name" in c:
            return T("const", c["name"])
        return T("const", str(c.get("tc") or c.get("s") or fr.fn.types[c["ty"]]["s"] if "ty" in c else "?"))

    def promoted(self, st, fr, n):
        body = fr.fn.promoted[n]
        outs = self.run_body(fr.fn, body, [], st.copy(), fr.subst, fr.depth + 1)
        if len(outs) == 1 and not isinstance(outs[0][1], Stop):
            s2, v = outs[0]
            return self.deep(s2, v)
        return self.fresh("promoted")

    def deep(self, st, v):
        """a value with its references replaced by what they point at"""
        if isinstance(v, Ref):
            return self.deep(st, self.load(st, v))
        if isinstance(v, Agg):
            return Agg(v.tag, v.var, [self.deep(st, x) for x in v.f])
        if isinstance(v, Seq):
            return Seq([self.deep(st, x) if not isinstance(x, Chunk) else x for x in v.items])
        return v

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(st, fr, o[1])
        v = self.read_place(st, fr, o[1])
        if o[0] == "mv":
            if len(o[1]) == 1:
                st.cells[fr.cells[o[1][0]]] = MOVED
            elif "*" not in o[1]:
                if has_guard(v):
                    c, pr = self.place_loc(st, fr, o[1])
                    self.store_loc(st, c, pr, MOVED)
        return v

    # ---- facts -----------------------------------------------------------------------------------------------------
    def bounds(self, st, t, d=0):
        if is_int(t):
            return t, t
        if isinstance(t, T):
            lo, hi = self.struct_bounds(st, t, d)
            f = st.iv.get(t)
            if f:
                if f[0] is not None and (lo is None or f[0] > lo):
                    lo = f[0]
                if f[1] is not None and (hi is None or f[1] < hi):
                    hi = f[1]
            return lo, hi
        return None, None

    def byte_bounds(self, st, t, ty):
        """bounds of a number some of whose bytes are known"""
        w = WIDTH[ty] // 8
        r = ty_range(ty)
        f = st.iv.get(t)
        lo = hi = 0
        neg = None
        if ty in SIGNED:
            neg = True if f and f[1] is not None and f[1] < 0 else False if f and f[0] is not None and f[0] >= 0 else None
        else:
            neg = False
        for i in range(w):
            b = st.iv.get(T("byte", t, i, w, ty))
            l, h = (b[0] or 0, 255 if b[1] is None else b[1]) if b else (0, 255)
            if i == w - 1 and ty in SIGNED:
                if neg is False:
                    h = min(h, 127)
                elif neg:
                    l = max(l, 128)
                elif l < 128 <= h:
                    return r
            lo += l << (8 * i)
            hi += h << (8 * i)
        if ty in SIGNED and (neg or neg is None and lo >= 1 << (8 * w - 1)):
            lo, hi = lo - (1 << 8 * w), hi - (1 << 8 * w)
        return lo, hi

    def struct_bounds(self, st, t, d):
        if d > 8:
            return None, None
        op = t.op
        if op == "sym" and len(t.a) > 1:
            if ("bytes", t) in st.bt:
                return self.byte_bounds(st, t, t.a[1])
            r = ty_range(t.a[1])
            return r if r else (None, None)
        if op == "ite":
            a, b = self.bounds(st, t.a[1], d + 1), self.bounds(st, t.a[2], d + 1)
            return (None if a[0] is None or b[0] is None else min(a[0], b[0])), (None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if op == "byte":
            if t.a[3] in WIDTH and t.a[3] not in ("f32", "f64"):
                f = st.iv.get(t.a[0])
                if f and f[0] is not None and f[0] >= 0:
                    r = f[1] if f[1] is not None else ty_range(t.a[3])[1]
                    return 0, min(255, r >> (8 * t.a[1]))
                if f and f[1] is not None and f[1] < 0 and t.a[1] == t.a[2] - 1:
                    return 128, 255
            return 0, 255
        if op == "len" or op == "strlen":
            return 0, (1 << 63) - 1
        if op == "discr":
            return 0, None
        if op == "cast":
            lo, hi = self.bounds(st, t.a[1], d + 1)
            r = ty_range(t.a[0])
            if r and lo is not None and hi is not None and r[0] <= lo and hi <= r[1]:
                return lo, hi
            return r if r else (None, None)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "and", "or", "notb"):
            return 0, 1
        if op == "BitAnd":
            hs = [self.bounds(st, x, d + 1)[1] for x in t.a[:2]]
            ls = [self.bounds(st, x, d + 1)[0] for x in t.a[:2]]
            hs2 = [h for h, l in zip(hs, ls) if h is not None and l is not None and l >= 0]
            if hs2:
                return 0, min(hs2)
        if op in ("Add", "Sub", "Mul"):
            a, b = self.bounds(st, t.a[0], d + 1), self.bounds(st, t.a[1], d + 1)
            if None in a or None in b:
                if op == "Add" and a[0] is not None and b[0] is not None:
                    return a[0] + b[0], None
                return None, None
            if op == "Add":
                r = a[0] + b[0], a[1] + b[1]
            elif op == "Sub":
                r = a[0] - b[1], a[1] - b[0]
            else:
                c = [x * y for x in a for y in b]
                r = min(c), max(c)
            if len(t.a) > 2:
                q = ty_range(t.a[2])
                if q and (r[0] < q[0] or r[1] > q[1]):
                    #may have wrapped unless a check that rules it out was passed
                    if ("nowrap", t) in st.bt:
                        return max(r[0], q[0]), min(r[1], q[1])
                    return q
            return r
        if op == "Shr":
            lo, hi = self.bounds(st, t.a[0], d + 1)
            if is_int(t.a[1]) and lo is not None and lo >= 0 and hi is not None:
                return lo >> t.a[1], hi >> t.a[1]
        if op == "Shl" and is_int(t.a[1]):
            lo, hi = self.bounds(st, t.a[0], d + 1)
            if lo is not None and lo >= 0 and hi is not None and len(t.a) > 2:
                q = ty_range(t.a[2])
                if q and (hi << t.a[1]) <= q[1]:
                    return lo << t.a[1], hi << t.a[1]
        if op == "Rem":
            lo, hi = self.bounds(st, t.a[0], d + 1)
            l2, h2 = self.bounds(st, t.a[1], d + 1)
            if lo is not None and lo >= 0 and h2 is not None and h2 > 0:
                return 0, (h2 - 1 if hi is None else min(hi, h2 - 1))
        if op == "div_ceil" and is_int(t.a[1]) and t.a[1] > 0:
            lo, hi = self.bounds(st, t.a[0], d + 1)
            if lo is not None and lo >= 0:
                return -(-lo // t.a[1]), (None if hi is None else -(-hi // t.a[1]))
        if op == "Div":
            lo, hi = self.bounds(st, t.a[0], d + 1)
            if is_int(t.a[1]) and t.a[1] > 0 and lo is not None and lo >= 0:
                return lo // t.a[1], (None if hi is None else hi // t.a[1])
        if op in ("BitOr", "BitXor"):
            a, b = self.bounds(st, t.a[0], d + 1), self.bounds(st, t.a[1], d + 1)
            if None not in a and None not in b and a[0] >= 0 and b[0] >= 0:
                m = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
                return (max(a[0], b[0]) if op == "BitOr" else 0), m
        if op == "min":
            a, b = self.bounds(st, t.a[0], d + 1), self.bounds(st, t.a[1], d + 1)
            hs = [x[1] for x in (a, b) if x[1] is not None]
            ls = [x[0] for x in (a, b)]
            return (None if None in ls else min(ls)), (min(hs) if hs else None)
        if len(t.a) and isinstance(t.a[-1], str):
            r = ty_range(t.a[-1])
            if r:
                return r
        return None, None

    def simp(self, st, v):
        if isinstance(v, T):
            f = st.iv.get(v)
            if f and f[0] is not None and f[0] == f[1]:
                return f[0]
            if v in st.bt:
                return st.bt[v]
        return v

    def linear(self, v, k=1, acc=None, d=0):
        acc = {} if acc is None else acc
        if is_int(v):
            acc[1] = acc.get(1, 0) + k * v
        elif isinstance(v, T) and v.op == "Add" and d < 30:
            self.linear(v.a[0], k, acc, d + 1)
            self.linear(v.a[1], k, acc, d + 1)
        elif isinstance(v, T) and v.op == "Sub" and d < 30:
            self.linear(v.a[0], k, acc, d + 1)
            self.linear(v.a[1], -k, acc, d + 1)
        elif isinstance(v, T) and v.op == "Mul" and is_int(v.a[1]) and d < 30:
            self.linear(v.a[0], k * v.a[1], acc, d + 1)
        elif isinstance(v, T) and v.op == "Mul" and is_int(v.a[0]) and d < 30:
            self.linear(v.a[1], k * v.a[0], acc, d + 1)
        elif isinstance(v, T) and v.op == "cast" and v.a[0] in ("usize", "u64", "i128", "u128", "u32", "u16") and isinstance(v.a[1], T) and \
                v.a[1].op == "byte":
            acc[v.a[1]] = acc.get(v.a[1], 0) + k
        else:
            acc[v] = acc.get(v, 0) + k
        return acc

    def lin_min(self, st, l):
        """a lower bound of a linear expression, or None"""
        s = 0
        for t, k in l.items():
            if k == 0:
                continue
            if t == 1 and is_int(t):
                s += k
                continue
            lo, hi = self.bounds(st, t)
            b = lo if k > 0 else hi
            if b is None:
                return None
            s += k * b
        return s

    def nonneg(self, st, l):
        """whether a linear expression is known to be at least zero"""
        l = {t: k for t, k in l.items() if k}
        m = self.lin_min(st, l)
        if m is not None and m >= 0:
            return True
        for c in st.lin:
            if not any(t in l for t in c if t != 1):
                continue
            r = dict(l)
            for t, k in c.items():
                r[t] = r.get(t, 0) - k
            r = {t: k for t, k in r.items() if k}
            m = self.lin_min(st, r)
            if m is not None and m >= 0:
                return True
            for c2 in st.lin:
                if not any(t in r for t in c2 if t != 1):
                    continue
                r2 = dict(r)
                for t, k in c2.items():
                    r2[t] = r2.get(t, 0) - k
                m = self.lin_min(st, {t: k for t, k in r2.items() if k})
                if m is not None and m >= 0:
                    return True
        return False

    def cmp(self, st, op, a, b):
        """1, 0 or None when the facts do not say"""
        a, b = self.simp(st, a), self.simp(st, b)
        if is_int(a) and is_int(b):
            return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        if op in ("Eq", "Ne"):
            r = self.equal(st, a, b)
            if r is None:
                return None
            return int(r if op == "Eq" else not r)
        if op in ("Gt", "Ge"):
            return self.cmp(st, "Lt" if op == "Gt" else "Le", b, a)
        if a == b:
            return int(op == "Le")
        if not isinstance(a, (int, T)) or not isinstance(b, (int, T)):
            return None
        for x in (a, b):
            if isinstance(x, T) and (x.op == "fconst" or is_float(x)):
                x, y = fvalue(a), fvalue(b)
                return None if x is None or y is None else int({"Lt": x < y, "Le": x <= y}[op])
        if isinstance(a, T) and a.op == "min" and any(self.cmp(st, op, x, b) == 1 for x in a.a[:2]):
            return 1
        d = self.linear(b)
        self.linear(a, -1, d)
        if op == "Lt":
            d[1] = d.get(1, 0) - 1
        if self.nonneg(st, d):
            return 1
        d = self.linear(a)
        self.linear(b, -1, d)
        if op == "Le":
            d[1] = d.get(1, 0) - 1
        if self.nonneg(st, d):
            return 0
        return None

    def equal(self, st, a, b):
        """True, False or None"""
        a, b = self.simp(st, a), self.simp(st, b)
        if is_int(a) and is_int(b):
            return a == b
        if is_float(a) or is_float(b):
            x, y = fvalue(a), fvalue(b)
            if x is not None and y is not None:
                return x == y
        if type(a) is type(b) and a == b:
            return True
        if isinstance(a, Str) and isinstance(b, Str):
            x, y = a.const(), b.const()
            if x is not None and y is not None:
                return x == y
            if a.parts and b.parts and isinstance(a.parts[0], str) and isinstance(b.parts[0], str) and \
                    not (a.parts[0].startswith(b.parts[0]) or b.parts[0].startswith(a.parts[0])):
                return False
            return None
        if isinstance(a, (T, int)) and isinstance(b, (T, int)):
            la, ha = self.bounds(st, a)
            lb, hb = self.bounds(st, b)
            if ha is not None and lb is not None and ha < lb or hb is not None and la is not None and hb < la:
                return False
            for x, y in ((a, b), (b, a)):
                if is_int(y) and x in st.iv and y in st.iv[x][2]:
                    return False
            if T("Eq", *sorted((a, b), key=okey)) in st.bt:
                return bool(st.bt[T("Eq", *sorted((a, b), key=okey))])
            if is_float(a) or is_float(b):
                return None
            d = self.linear(a)
            self.linear(b, -1, d)
            d = {t: k for t, k in d.items() if k}
            if not d:
                return True
            if list(d) == [1]:
                return False
            if self.nonneg(st, {**d, 1: d.get(1, 0) - 1}) or self.nonneg(st, {**{t: -k for t, k in d.items()}, 1: -d.get(1, 0) - 1}):
                return False
            return None
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.tag == b.tag and a.var != b.var:
                return False
            if a.tag == b.tag and len(a.f) == len(b.f):
                rs = [self.equal(st, x, y) for x, y in zip(a.f, b.f)]
                if False in rs:
                    return False
                if None in rs:
                    return None
                return True
        if isinstance(a, Seq) and isinstance(b, Seq) and not a.chunks() and not b.chunks():
            if len(a.items) != len(b.items):
                return False
            rs = [self.equal(st, x, y) for x, y in zip(a.items, b.items)]
            if False in rs:
                return False
            return None if None in rs else True
        return None

    def assume(self, st, t, v):
        """records that the scalar t equals v; False when that contradicts the facts"""
        if is_int(t):
            return t == v
        if not isinstance(t, T):
            return True
        s = self.simp(st, t)
        if is_int(s):
            return s == v
        op = t.op
        g = guess(t)
        if g is not None:
            st.x["guess"] = g
        lo, hi = self.bounds(st, t)
        if lo is not None and v < lo or hi is not None and v > hi:
            return False
        f = st.iv.get(t)
        if f and v in f[2]:
            return False
        st.iv[t] = (v, v, frozenset())
        if op == "byte" and not self.byte_fact(st, t):
            return False
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = t.a[0], t.a[1]
            st.bt[t] = v
            if not v:
                op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
            return self.assume_cmp(st, op, a, b)
        if op == "BitAnd" and is_int(t.a[1]) and isinstance(t.a[0], T) and t.a[1] > 0 and t.a[1] & (t.a[1] - 1) == 0:
            #the top bit of a number says which half it is in
            lo, hi = self.bounds(st, t.a[0])
            if lo is not None and hi is not None and lo >= 0 and hi < 2 * t.a[1]:
                return v in (0, t.a[1]) and self.assume_cmp(st, "Ge" if v else "Lt", t.a[0], t.a[1])
        if op == "notb":
            return self.assume(st, t.a[0], 1 - v)
        if op == "and" and v:
            return self.assume(st, t.a[0], 1) and self.assume(st, t.a[1], 1)
        if op == "or" and not v:
            return self.assume(st, t.a[0], 0) and self.assume(st, t.a[1], 0)
        if op == "cast" and isinstance(t.a[1], T):
            lo, hi = self.bounds(st, t.a[1])
            r = ty_range(t.a[0])
            if r and lo is not None and hi is not None and r[0] <= lo and hi <= r[1]:
                return self.assume(st, t.a[1], v)
        return True

    def assume_cmp(self, st, op, a, b):
        r = self.cmp(st, op, a, b)
        if r is not None:
            return bool(r)
        if op == "Eq":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T) and is_int(y) and not is_float(x):
                    return self.assume(st, x, y)
            if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items) and all(isinstance(x, (int, T)) and not is_float(x) for x in a.items + b.items):
                for x, y in zip(a.items, b.items):
                    if not self.assume_cmp(st, "Eq", x, y):
                        return False
                st.bt[T("Eq", *sorted((a, b), key=okey))] = 1
                return True
            if isinstance(a, (T, int)) and isinstance(b, (T, int)) and not is_float(a) and not is_float(b):
                d = self.linear(a)
                self.linear(b, -1, d)
                st.lin.append(d)
                st.lin.append({t: -k for t, k in d.items()})
            st.bt[T("Eq", *sorted((a, b), key=okey))] = 1
            return True
        if op == "Ne":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T) and is_int(y) and not is_float(x):
                    lo, hi, ex = st.iv.get(x, (None, None, frozenset()))
                    l2, h2 = self.bounds(st, x)
                    if (l2, h2) == (0, 1) and y in (0, 1):
                        return self.assume(st, x, 1 - y)
                    if l2 == y:
                        lo = y + 1
                    if h2 == y:
                        hi = y - 1
                    st.iv[x] = (lo, hi, ex | {y})
                    if x.op == "BitAnd" and is_int(x.a[1]) and x.a[1] > 0 and x.a[1] & (x.a[1] - 1) == 0 and y in (0, x.a[1]):
                        #a single bit is set or not
                        st.iv[x] = (lo, hi, ex)
                        return self.assume(st, x, x.a[1] - y)
                    if x.op == "Rem" and y == 0:
                        #only numbers other than zero leave a remainder
                        l3, _ = self.bounds(st, x.a[0])
                        if l3 is not None and l3 >= 0 and is_int(x.a[1]) and x.a[1] > 0 and isinstance(x.a[0], T):
                            if not self.assume_cmp(st, "Ge", x.a[0], 1):
                                return False
                    if x.op == "byte" and not self.byte_fact(st, x):
                        return False
            st.bt[T("Eq", *sorted((a, b), key=okey))] = 0
            return True
        if is_float(a) or is_float(b):
            return True
        if op in ("Gt", "Ge"):
            op, a, b = ("Lt" if op == "Gt" else "Le"), b, a
        #a < b or a <= b
        d = 1 if op == "Lt" else 0
        if isinstance(a, T) and is_int(b):
            lo, hi, ex = st.iv.get(a, (None, None, frozenset()))
            h = b - d if hi is None else min(hi, b - d)
            while h in ex:
                h -= 1
            st.iv[a] = (lo, h, ex)
        elif isinstance(b, T) and is_int(a):
            lo, hi, ex = st.iv.get(b, (None, None, frozenset()))
            l = a + d if lo is None else max(lo, a + d)
            while l in ex:
                l += 1
            st.iv[b] = (l, hi, ex)
        if isinstance(a, (T, int)) and isinstance(b, (T, int)):
            l = self.linear(b)
            self.linear(a, -1, l)
            l[1] = l.get(1, 0) - d
            st.lin.append(l)
        for x in (a, b):
            if isinstance(x, T) and x.op == "byte" and not self.byte_fact(st, x):
                return False
            if isinstance(x, T) and x.op == "cast" and x.a[0] in SIGNED and not self.cast_fact(st, x):
                return False
        return True

    def byte_fact(self, st, t):
        """a fact about one byte of a number bounds the number"""
        x, ty = t.a[0], t.a[3]
        if isinstance(x, T) and x.op == "sym" and ty in WIDTH and len(x.a) > 1 and x.a[1] == ty and ty not in ("f32", "f64"):
            st.bt[("bytes", x)] = 1
            lo, hi = self.bounds(st, x)
            if lo == hi:
                f = st.iv.get(x)
                if f and lo in f[2]:
                    return False
                st.iv[x] = lo, hi, frozenset()
            return lo <= hi
        return True

    def cast_fact(self, st, t):
        """the sign of a number reinterpreted as signed says on which side of the middle the number was"""
        y, w = t.a[1], WIDTH[t.a[0]]
        lo, hi = self.bounds(st, t)
        l2, h2 = self.bounds(st, y)
        if None in (lo, hi, l2, h2) or not isinstance(y, T):
            return True
        if hi < 0:
            if l2 >= 0 and h2 < 1 << w:
                return self.assume_cmp(st, "Ge", y, 1 << (w - 1))
            if h2 < 0 and l2 >= -(1 << w):
                return self.assume_cmp(st, "Ge", y, -(1 << (w - 1)))
        elif lo >= 0:
            if l2 >= 0 and h2 < 1 << w:
                return self.assume_cmp(st, "Lt", y, 1 << (w - 1))
            if h2 < 0 and l2 >= -(1 << w):
                return self.assume_cmp(st, "Lt", y, -(1 << (w - 1)))
        return True

    def decide(self, st, b):
        """[(state, 0 or 1)] for a boolean"""
        b = self.simp(st, b)
        if is_int(b):
            return [(st, int(bool(b)))]
        if isinstance(b, T) and b.op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            r = self.cmp(st, b.op, b.a[0], b.a[1])
            if r is not None:
                return [(st, r)]
        out = []
        for v in (0, 1):
            s2 = st.copy()
            if self.assume(s2, b, v):
                out.append((s2, v))
        return out

    def variants(self, st, v, tag=None, n=None):
        """[(state, value as an aggregate or dc-term, variant index)] of an enum value"""
        v = self.load(st, v)
        if isinstance(v, Agg):
            return [(st, v, v.var)]
        if isinstance(v, T):
            d = T("discr", v)
            s = self.simp(st, d)
            if is_int(s):
                return [(st, v, s)]
            out = []
            for k in range(n or 2):
                s2 = st.copy()
                if self.assume(s2, d, k):
                    out.append((s2, v, k))
            return out
        return [(st, v, None)]

    def payload(self, v, var, i=0):
        if isinstance(v, Agg):
            return v.f[i] if i < len(v.f) else UNIT
        return T("fld", v, var, i)

    # ---- rvalues ---------------------------------------------------------------------------------------------------
    def binop(self, st, fr, op, a, b, ty):
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        a, b = self.simp(st, a), self.simp(st, b)
        over = op.endswith("WithOverflow")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            r = self.cmp(st, base, a, b)
            if r is not None and not is_float(a):
                return r
            if base in ("Eq", "Ne") and not isinstance(a, (int, T)):
                return T(base, a, b)
            return T(base, a, b)
        if base == "Cmp":
            return T("Cmp", a, b)
        if base == "Offset":
            return T("Offset", a, b)
        isf = ty in ("f32", "f64")
        if is_int(a) and is_int(b) and not isf:
            r = None
            if base == "Add":
                r = a + b
            elif base == "Sub":
                r = a - b
            elif base == "Mul":
                r = a * b
            elif base == "BitAnd":
                r = a & b
            elif base == "BitOr":
                r = a | b
            elif base == "BitXor":
                r = a ^ b
            elif base == "Shl":
                r = a << (b % WIDTH.get(ty, 64))
            elif base == "Shr":
                r = a >> (b % WIDTH.get(ty, 64))
            elif base == "Div" and b:
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif base == "Rem" and b:
                r = abs(a) % abs(b) * (-1 if a < 0 else 1)
            if r is not None:
                if base in ("BitAnd", "BitOr", "BitXor") and ty == "bool":
                    return r
                w = wrap(r, ty)
                if over:
                    return tup(w, int(w != r))
                return w
        if ty == "bool" and base in ("BitAnd", "BitOr"):
            if is_int(a):
                a, b = b, a
            if is_int(b):
                if base == "BitAnd":
                    return a if b else 0
                return 1 if b else a
            return T("and" if base == "BitAnd" else "or", a, b)
        if not isf:
            if base == "Add" and (b == 0 and is_int(b)):
                r = a
            elif base == "Add" and (a == 0 and is_int(a)):
                r = b
            elif base in ("Sub", "Shl", "Shr") and is_int(b) and b == 0:
                r = a
            elif base in ("BitOr", "BitXor") and is_int(b) and b == 0:
                r = a
            elif base in ("BitOr", "BitXor") and is_int(a) and a == 0:
                r = b
            elif base == "Mul" and is_int(b) and b == 1:
                r = a
            elif base == "Mul" and is_int(a) and a == 1:
                r = b
            elif base in ("Mul", "BitAnd") and (is_int(b) and b == 0 or is_int(a) and a == 0):
                r = 0
            elif base == "BitAnd" and is_int(b) and b == (1 << WIDTH.get(ty, 64)) - 1 and ty not in SIGNED:
                r = a
            elif base in ("BitAnd", "Shr", "Shl", "BitOr") and ty not in SIGNED and (k := self.bitwise(st, base, a, b, ty)) is not None:
                r = k
            else:
                x, y = a, b
                if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and is_int(x) and not is_int(y):
                    x, y = y, x
                r = T(base, x, y, ty)
                if base in ("Add", "Sub"):
                    d = self.linear(r)
                    d = {t: k for t, k in d.items() if k}
                    if not d:
                        r = 0
                    elif len(d) == 1:
                        (t, k), = d.items()
                        if t == 1 and is_int(t):
                            r = k
                        elif k == 1:
                            r = t
        else:
            r = T("f" + base, a, b, ty)
        if over:
            o = self.overflow(st, base, a, b, ty, r)
            return tup(r, o)
        return r

    def known(self, st, t, d=0):
        """(mask of the bits that may be one, bits that are certainly one) of an unsigned value"""
        if is_int(t):
            return (t, t) if t >= 0 else (-1, 0)
        lo, hi = self.bounds(st, t)
        may = (1 << hi.bit_length()) - 1 if lo is not None and lo >= 0 and hi is not None else -1
        if not isinstance(t, T) or d > 8 or may == -1:
            return may, 0
        if t.op in ("BitAnd", "BitOr", "BitXor"):
            (m1, o1), (m2, o2) = self.known(st, t.a[0], d + 1), self.known(st, t.a[1], d + 1)
            if t.op == "BitAnd":
                return m1 & m2 & may, o1 & o2
            if t.op == "BitOr":
                return (m1 | m2) & may, o1 | o2
            return (m1 | m2) & may, 0
        if t.op in ("Shl", "Shr") and is_int(t.a[1]) and len(t.a) > 2 and t.a[2] in WIDTH:
            m, o = self.known(st, t.a[0], d + 1)
            full = (1 << WIDTH[t.a[2]]) - 1
            if m != -1:
                if t.op == "Shl":
                    return (m << t.a[1]) & full & may, (o << t.a[1]) & full
                return (m >> t.a[1]) & may, o >> t.a[1]
        if t.op == "cast" and t.a[0] in WIDTH:
            m, o = self.known(st, t.a[1], d + 1)
            full = (1 << WIDTH[t.a[0]]) - 1
            if m != -1:
                return m & full & may, o & full
        return may, 0

    def bitwise(self, st, base, a, b, ty, d=0):
        """a simpler form of a bit operation that known bits settle, or None"""
        if is_int(a) and not is_int(b) and base in ("BitAnd", "BitOr"):
            a, b = b, a
        full = (1 << WIDTH.get(ty, 64)) - 1
        m, o = self.known(st, a)
        if m == -1:
            return None
        if base == "BitOr":
            m2, o2 = self.known(st, b)
            if m2 != -1 and (m & ~o2) == 0 and is_int(b):
                return b
            return None
        if not is_int(b):
            return None
        if base == "BitAnd":
            if m & b == 0:
                return 0
            if m & b == o & b:
                return o & b
            if m & ~b == 0:
                return a
        elif base == "Shr":
            if b >= WIDTH.get(ty, 64):
                return None
            if m >> b == o >> b:
                return o >> b
        elif base == "Shl":
            if b >= WIDTH.get(ty, 64):
                return None
            if (m << b) & full == (o << b) & full:
                return (o << b) & full
        if d > 6 or not isinstance(a, T):
            return None
        if a.op in ("BitOr", "BitAnd") and len(a.a) > 2:
            #push the operation inside when that makes a part disappear
            x, y = (self.bit1(st, base, v, b, ty, d + 1) for v in a.a[:2])
            if base in ("Shr", "Shl") or x != T(base, a.a[0], b, ty) and y != T(base, a.a[1], b, ty):
                if is_int(x) or is_int(y) or x in a.a[:2] or y in a.a[:2]:
                    return self.binop(st, None, a.op, x, y, ty)
        if base == "Shr" and a.op == "Shl" and a.a[1] == b and is_int(b):
            m2, _ = self.known(st, a.a[0])
            if m2 != -1 and (m2 << b) & ~full == 0:
                return a.a[0]
        return None

    def bit1(self, st, base, v, b, ty, d):
        if is_int(v):
            return wrap(v & b if base == "BitAnd" else v >> b if base == "Shr" else v << b, ty)
        if base in ("Shr", "Shl") and b == 0:
            return v
        r = self.bitwise(st, base, v, b, ty, d)
        return T(base, v, b, ty) if r is None else r

    def overflow(self, st, base, a, b, ty, r):
        q = ty_range(ty)
        if not isinstance(r, T):
            if is_int(r) and q and q[0] <= r <= q[1]:
                return 0
            if isinstance(r, int):
                return 0
        if q is None:
            return T("overflow", base, a, b, ty)
        if base in ("Add", "Sub"):
            d = self.linear(a)
            self.linear(b, 1 if base == "Add" else -1, d)
            d2 = dict(d)
            d2[1] = d2.get(1, 0) - q[0]
            lo_ok = self.nonneg(st, d2)
            d3 = {t: -k for t, k in d.items()}
            d3[1] = d3.get(1, 0) + q[1]
            hi_ok = self.nonneg(st, d3)
            if lo_ok and hi_ok:
                return 0
        if base == "Mul":
            x, y = self.bounds(st, a), self.bounds(st, b)
            if None not in x and None not in y:
                c = [p * s for p in x for s in y]
                if q[0] <= min(c) and max(c) <= q[1]:
                    return 0
        if base in ("Shl", "Shr"):
            lo, hi = self.bounds(st, b)
            if lo is not None and hi is not None and 0 <= lo and hi < WIDTH[ty]:
                return 0
        return T("overflow", base, a, b, ty)

    def cast(self, st, kind, v, src, dst):
        v = self.simp(st, v)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype") or kind.startswith("Transmute"):
            if kind.startswith("Transmute") and src != dst and not isinstance(v, (Agg, Seq, Ref, Str)):
                if dst in WIDTH and is_int(v) and src not in WIDTH and dst not in ("f32", "f64"):
                    return wrap(v, dst)
                if dst in WIDTH:
                    return T("transmute", dst, v)
            return v
        if is_int(v):
            if kind in ("IntToFloat",):
                return T("i2f", dst, v)
            return wrap(v, dst)
        if isinstance(v, Agg) and dst in WIDTH:
            #a fieldless enum as an integer
            a = self.P.adts.get(v.tag)
            if a and v.var is not None:
                return wrap(a["v"][v.var]["d"], dst)
        if isinstance(v, T):
            if kind == "IntToFloat":
                return T("i2f", dst, v)
            if kind == "FloatToInt":
                return T("f2i", dst, v)
            if kind == "FloatToFloat":
                return T("f2f", dst, v)
            if src == dst or {src, dst} in ({"u64", "usize"}, {"i64", "isize"}):
                return v
            if src not in WIDTH and dst in WIDTH:
                return T("cast", dst, T("discr", v))
            if v.op == "cast" and v.a[0] == src:
                #widening then anything: look through when the inner value always fits
                lo, hi = self.bounds(st, v.a[1])
                rs, rd = ty_range(src), ty_range(dst)
                if lo is not None and hi is not None and rs and rs[0] <= lo and hi <= rs[1]:
                    if rd and rd[0] <= lo and hi <= rd[1]:
                        it = v.a[2] if len(v.a) > 2 else None
                        if it == dst:
                            return v.a[1]
                        return T("cast", dst, v.a[1], it)
            return T("cast", dst, v, src)
        return v

    def discr_of(self, st, v, ty):
        v = self.load(st, v)
        if isinstance(v, Agg):
            if v.tag == ORD and v.var is not None:
                return (255, 0, 1)[v.var]
            a = self.P.adts.get(v.tag)
            if a and v.var is not None and v.var < len(a["v"]):
                return a["v"][v.var]["d"]
            return v.var if v.var is not None else 0
        if isinstance(v, T):
            if v.op == "fld" and isinstance(v.a[0], T) and v.a[0].op == "Int" and v.a[2] == 0:
                #the sign of a stored integer that is kept as one number
                x, t = v.a[0].a
                if t.startswith("u"):
                    return 0
                neg = self.binop(st, None, "Lt", self.simp(st, x), 0, t)
                return 1 + neg if is_int(neg) else T("Add", neg, 1, "isize")
            return T("discr", v)
        st.note(f"discriminant of {type(v).__name__}")
        return self.fresh("discr")

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            p = r[1]
            if r[2] in ("Mut", "raw"):
                c, pr = self.place_loc(st, fr, p)
                v = self.load_loc(st, c, pr)
                if isinstance(v, Ref) and len(p) > 1 and p[-1] == "*":
                    return v
                return Ref(c, pr)
            v = self.read_place(st, fr, p)
            return v
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ty = self.tystr(fr, self.op_ty(fr, r[2]))
            return self.binop(st, fr, r[1], a, b, ty)
        if k == "un":
            v = self.simp(st, self.operand(st, fr, r[2]))
            ty = self.tystr(fr, self.op_ty(fr, r[2]))
            if r[1] == "Not":
                if is_int(v):
                    return 1 - v if ty == "bool" else wrap(~v, ty)
                if ty == "bool":
                    if isinstance(v, T) and v.op == "notb":
                        return v.a[0]
                    if isinstance(v, T) and v.op in ("Eq", "Ne"):
                        return T("Ne" if v.op == "Eq" else "Eq", *v.a)
                    return T("notb", v)
                return T("Not", v, ty)
            if r[1] == "Neg":
                if is_int(v):
                    return wrap(-v, ty)
                return T("Neg", v, ty)
            if r[1] == "PtrMetadata":
                return self.seq_len(st, self.load(st, v))
            return T("un", r[1], v)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, self.tystr(fr, self.op_ty(fr, r[2])), self.tystr(fr, fr.fn.types[r[3]]))
        if k == "discr":
            c, pr = self.place_loc(st, fr, r[1])
            return self.discr_of(st, self.load_loc(st, c, pr), self.place_ty(fr, r[1]))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == "tuple":
                return tup(*ops)
            if a[0] == "array":
                return Seq(ops)
            if a[0] == "adt":
                if self.on_made:
                    self.on_made(st, a[1], a[2], ops, fr.fn)
                return Agg(a[1], a[2], ops)
            if a[0] in ("closure", "coroutine"):
                return Agg(a[0] + ":" + a[1], None, ops)
            return Agg("other", None, ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is None:
                return T("repeat", v)
            if n > 4096:
                return T("repeat", v, n)
            return Seq([v] * n)
        return self.fresh("rvalue", k)

    def seq_len(self, st, v):
        v = self.load(st, v)
        if isinstance(v, Seq):
            n, chunks = 0, []
            for x in v.items:
                if isinstance(x, Chunk):
                    chunks.append(self.chunk_len(x))
                else:
                    n += 1
            r = n
            for c in chunks:
                if is_int(r) and r == 0:
                    r = c
                elif is_int(c):
                    r = r + c if is_int(r) else T("Add", r, c, "usize")
                else:
                    r = T("Add", c, r, "usize") if is_int(r) else T("Add", r, c, "usize")
            return r
        if isinstance(v, Str):
            c = v.const()
            if c is not None:
                return len(c.encode())
            if len(v.parts) == 1:
                return T("strlen", v.parts[0])
            return T("strlen", v)
        if isinstance(v, MapV):
            if v.base is None and all(x is not ABSENT for k, x in v.over):
                ks = []
                for k, _ in v.over:
                    if k not in ks:
                        ks.append(k)
                return len(ks)
            return T("maplen", v)
        if isinstance(v, T):
            n = T("len", v)
            if v.op == "slice" and n not in st.iv and self.cmp(st, "Lt", v.a[1], v.a[2]) == 1:
                st.iv[n] = (1, (1 << 63) - 1, frozenset())
            return n
        return self.fresh("len")

    def chunk_len(self, c):
        if c.kind == "utf8":
            return T("strlen", c.x)
        if c.kind == "rep":
            return c.x[1]
        if c.kind == "raw":
            return c.x.a[1]
        return T("len", c.x)

    def long_loop(self, st, n, c):
        st.x["truncated"] = True
        self.long.append((st, n, c.frame.fn.path if c is not None and c.frame else "?", c.span if c is not None else None, c.key if c is not None else ""))

    # ---- drops -----------------------------------------------------------------------------------------------------
    def drop_value(self, st, v, span, fr=None):
        for g in guards(v):
            st.ev("UNLOCK", g.f[0], span)
        h = self.hooks.get("#drop")
        if h:
            h(self, st, v, span)

    # ---- execution -------------------------------------------------------------------------------------------------
    def run(self, fn, args, st=None, subst=None, depth=0):
        if isinstance(fn, str):
            fn = self.P.fns[fn]
        st = st or State()
        if not self.stack:
            self.steps = 0
            self.partial = None
            self.deadline = min(time.time() + self.budget_s, max(END[0], time.time() + 2))
            return Paths(self, self.run_body(fn, fn.j["body"], args, st, subst or {}, depth))
        return self.run_body(fn, fn.j["body"], args, st, subst or {}, depth)

    def run_body(self, fn, body, args, st, subst, depth):
        if self.on_recursion and body is fn.j["body"] and fn in self.stack and any(f is fn and sb == subst for f, sb in zip(self.stack, self.substs)):
            r = self.on_recursion(fn, subst, args, st)
            if r is not None:
                return r
        self.stack.append(fn)
        self.substs.append(subst)
        try:
            return self.run_body1(fn, body, args, st, subst, depth)
        finally:
            self.stack.pop()
            self.substs.pop()

    def run_body1(self, fn, body, args, st, subst, depth):
        if depth > self.depth_max:
            self.cuts.append("inline depth at " + fn.path)
            return [(st, Stop("cut", "inline depth"))]
        self.analysed.add(fn.path)
        cells = {}
        for i in range(len(body["locals"])):
            self.ncell += 1
            cells[i] = self.ncell
        for i, a in enumerate(args):
            st.cells[cells[i + 1]] = a
        fr = Frame(fn, body, cells, subst, depth)
        outs = []
        if len(self.stack) == 1:
            self.partial = outs
        work = [(st, 0, {}, False)]
        blocks = body["blocks"]
        while work:
            st, bb, visits, again = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps or len(outs) + len(work) > self.max_paths or (self.steps & 255) == 0 and time.time() > self.deadline:
                    if os.environ.get("SA_STACK"):
                        print("budget:", " < ".join(f.path.rsplit("::", 2)[-2] + "::" + f.path.rsplit("::", 1)[-1] for f in reversed(self.stack[-14:])))
                        print("  visits", sorted(visits.items(), key=lambda x: -x[1])[:5], {k: v for k, v in list(st.iv.items())[-6:]})
                    raise Budget(f"{fn.path}: {self.steps} steps, {len(outs) + len(work)} paths")
                b = blocks[bb]
                n = visits.get(bb, 0) + 1
                visits[bb] = n
                if n > self.max_visits:
                    self.cuts.append("loop bound at " + fn.path)
                    outs.append((st, Stop("cut", f"loop bound in {fn.path}")))
                    break
                if not again:
                    self.statements(st, fr, b)
                again = False
                t = b["t"]
                k = t[0]
                if self.merge and k in ("ret", "call", "switch", "assert"):
                    q = self.find_ite(st, fr, t)
                    if q is not None:
                        for s2, c in self.decide(st, q.a[0]):
                            self.subst_all(s2, q, q.a[1] if c else q.a[2])
                            work.append((s2, bb, visits if s2 is st else dict(visits), True))
                        break
                if k == "goto":
                    bb = t[1]
                    continue
                if k == "ret":
                    rv = st.cells.get(cells[0], UNINIT)
                    for q in cells.values():
                        st.cells.pop(q, None)
                    outs.append((st, rv))
                    break
                if k == "drop":
                    v = self.read_place(st, fr, t[1])
                    if v is not MOVED and v is not UNINIT:
                        if has_guard(v) or "#drop" in self.hooks:
                            self.drop_value(st, v, t[4], fr)
                        if len(t[1]) == 1:
                            st.cells[fr.cells[t[1][0]]] = MOVED
                    bb = t[2]
                    continue
                if k == "switch":
                    sv = self.simp(st, self.peek(st, fr, t[1])) if self.merge else None
                    nxt = self.switch(st, fr, t)
                    if self.merge and len(nxt) == 2:
                        m = self.try_merge(st, fr, t, nxt, sv)
                        if m:
                            st, bb = m
                            continue
                    if len(nxt) == 1 and nxt[0][0] is st:
                        bb = nxt[0][1]
                        continue
                    for s2, b2 in nxt[1:]:
                        work.append((s2, b2, dict(visits), False))
                    if not nxt:
                        break
                    st, bb = nxt[0]
                    continue
                if k == "call":
                    res = self.call_term(st, fr, t)
                    if self.after:
                        for s2, v in res:
                            self.after(s2, fr, t, v)
                    if t[4] is None:
                        for s2, v in res:
                            if isinstance(v, Stop):
                                outs.append((s2, v))
                            else:
                                outs.append((s2, Stop("diverge", t[5])))
                        break
                    live = []
                    for s2, v in res:
                        if isinstance(v, Stop):
                            outs.append((s2, v))
                        else:
                            self.assign(s2, fr, t[3], v)
                            live.append(s2)
                    if not live:
                        break
                    for s2 in live[1:]:
                        work.append((s2, t[4], dict(visits), False))
                    st, bb = live[0], t[4]
                    continue
                if k == "assert":
                    c = self.simp(st, self.operand(st, fr, t[1]))
                    if isinstance(c, T) and c.op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                        r = self.cmp(st, c.op, c.a[0], c.a[1])
                        if r is not None:
                            c = r
                    if is_int(c):
                        if bool(c) != t[2]:
                            outs.append((st, Stop("panic", (t[3], fn.path, t[6]))))
                            break
                    else:
                        ops = tuple(self.simp(st, self.operand(st, fr, o)) for o in t[4])
                        st.ev("maypanic", t[3], fn.path, t[6], ops)
                        if self.panics:
                            s2 = st.copy()
                            if self.assume(s2, c, 1 - int(t[2])):
                                outs.append((s2, Stop("panic?", (t[3], fn.path, t[6], ops, (c, 1 - int(t[2]))))))
                        if isinstance(c, T) and c.op == "overflow":
                            st.bt[("nowrap", T(c.a[0], c.a[1], c.a[2], c.a[3]))] = 1
                        if not self.assume(st, c, int(t[2])):
                            outs.append((st, Stop("panic", (t[3], fn.path, t[6]))))
                            break
                    bb = t[5]
                    continue
                if k == "yield":
                    st.ev("yield", t[4])
                    if st.x.get("select"):
                        outs.append((st, Stop("pending", fn.path)))
                        break
                    self.assign(st, fr, t[3], self.fresh("resume"))
                    bb = t[2]
                    continue
                if k == "unreachable":
                    break
                if k in ("resume", "codrop"):
                    break
                outs.append((st, Stop("cut", "terminator " + str(t[:2]))))
                break
        return outs

    def statements(self, st, fr, b):
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                self.assign(st, fr, s[1], v)
            elif s[0] == "dead":
                pass
            elif s[0] == "setd":
                v = self.read_place(st, fr, s[1])
                if isinstance(v, Agg):
                    self.assign(st, fr, s[1], Agg(v.tag, s[2], v.f))

    # ---- joining short branches: values that differ become ite(condition, then, else) ---------------------------------
    def straight(self, st, fr, bb):
        """[(block, state on entry)] along the blocks that lead on without a choice"""
        out = []
        blocks = fr.body["blocks"]
        st = st.copy()
        for _ in range(6):
            out.append((bb, st.copy()))
            b = blocks[bb]
            self.statements(st, fr, b)
            t = b["t"]
            if t[0] == "goto":
                bb = t[1]
            elif t[0] == "assert":
                c = self.simp(st, self.operand(st, fr, t[1]))
                if not is_int(c) or bool(c) != t[2]:
                    break
                bb = t[5]
            else:
                break
        return out

    def try_merge(self, st, fr, t, nxt, v):
        if not isinstance(v, T):
            return None
        (s1, b1), (s2, b2) = nxt
        p1, p2 = self.straight(s1, fr, b1), self.straight(s2, fr, b2)
        at = {b: s for b, s in p2}
        for b, e1 in p1:
            if b in at:
                e2 = at[b]
                break
        else:
            return None
        if len(e1.events) != len(e2.events) or len(e1.events) != len(st.events) or len(e1.notes) != len(st.notes) or len(e2.notes) != len(st.notes):
            return None
        ty = self.tystr(fr, fr.fn.types[t[2]])
        val = t[3][0][0]
        if b1 != t[3][0][1]:
            return None
        if ty == "bool":
            c = v if val else (T("Ne" if v.op == "Eq" else "Eq", *v.a) if v.op in ("Eq", "Ne") else T("notb", v))
        else:
            c = T("Eq", v, wrap(val, ty) if ty in WIDTH else val)
        out = st.copy()
        for cell in set(e1.cells) | set(e2.cells):
            x, y = e1.cells.get(cell, UNINIT), e2.cells.get(cell, UNINIT)
            m = self.join(c, x, y)
            if m is None:
                return None
            out.cells[cell] = m
        return out, b

    def join(self, c, x, y):
        if x is y or type(x) is type(y) and x == y:
            return x
        if x in (UNINIT, MOVED) or y in (UNINIT, MOVED):
            return UNINIT
        if isinstance(x, (int, T)) and isinstance(y, (int, T)):
            return T("ite", c, x, y)
        if isinstance(x, Agg) and isinstance(y, Agg) and x.tag == y.tag and x.var == y.var and len(x.f) == len(y.f):
            f = [self.join(c, p, q) for p, q in zip(x.f, y.f)]
            return None if None in f else Agg(x.tag, x.var, f)
        if isinstance(x, Seq) and isinstance(y, Seq) and len(x.items) == len(y.items) and not x.chunks() and not y.chunks():
            f = [self.join(c, p, q) for p, q in zip(x.items, y.items)]
            return None if None in f else Seq(f)
        return None

    def peek(self, st, fr, o):
        return self.const(st, fr, o[1]) if o[0] == "k" else self.read_place(st, fr, o[1])

    def find_ite(self, st, fr, t):
        """the outermost undecided choice among the values a terminator uses"""
        if t[0] == "ret":
            vs = [st.cells.get(fr.cells[0], UNINIT)]
        elif t[0] == "call":
            vs = [self.deep(st, self.peek(st, fr, o)) for o in t[2]]
        else:
            vs = [self.peek(st, fr, t[1])]
        for v in vs:
            for q in subterms(v):
                if q.op == "ite":
                    return q
        return None

    def subst_all(self, st, q, v):
        memo = {}

        def go(x):
            if isinstance(x, T):
                if x is q:
                    return v
                if not x.a or x.op == "sym":
                    return x
                r = memo.get(x)
                if r is None:
                    a = [go(y) if isinstance(y, (T, Agg, Seq)) else y for y in x.a]
                    if all(p is r2 for p, r2 in zip(a, x.a)):
                        r = x
                    elif x.op in ("Add", "Sub", "Mul", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem", "Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                        r = self.binop(st, None, x.op, a[0], a[1], a[2] if len(a) > 2 else "usize")
                    elif x.op == "cast" and len(a) > 2:
                        r = self.cast(st, "IntToInt", a[1], a[2], a[0])
                    elif x.op == "notb" and is_int(a[0]):
                        r = 1 - a[0]
                    else:
                        r = T(x.op, *a)
                    memo[x] = r
                return r
            if isinstance(x, Agg):
                f = [go(y) for y in x.f]
                return x if all(p is r for p, r in zip(f, x.f)) else Agg(x.tag, x.var, f)
            if isinstance(x, Seq):
                f = [go(y) for y in x.items]
                return x if all(p is r for p, r in zip(f, x.items)) else Seq(f)
            return x
        for c, x in list(st.cells.items()):
            if isinstance(x, (T, Agg, Seq)):
                st.cells[c] = go(x)

    def assign(self, st, fr, p, v):
        if len(p) == 1:
            st.cells[fr.cells[p[0]]] = v
            return
        c, pr = self.place_loc(st, fr, p)
        if "*" in p:
            #a write through a reference whose target is not tracked
            i = len(p) - 1 - p[::-1].index("*")
            tgt = self.read_place(st, fr, p[:i])
            if not isinstance(tgt, Ref) and not isinstance(tgt, (Agg, Seq, MapV, Str)):
                ty = self.place_ty(fr, p[:i])
                if ty.get("k") == "ref":
                    st.note("write through untracked reference")
                    st.ev("opaque-store", tgt, v)
                    return
        self.store_loc(st, c, pr, v)

    def switch(self, st, fr, t):
        v = self.simp(st, self.operand(st, fr, t[1]))
        ty = self.tystr(fr, fr.fn.types[t[2]])
        targets, other = t[3], t[4]
        if isinstance(v, T) and v.op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            r = self.cmp(st, v.op, v.a[0], v.a[1])
            if r is not None:
                v = r
        if is_int(v):
            w = WIDTH.get(ty, 64)
            for val, b in targets:
                if val == v or (val & ((1 << w) - 1)) == (v & ((1 << w) - 1)):
                    return [(st, b)]
            return [(st, other)]
        if isinstance(v, T) and v.op == "Add" and v.a[1] == 1 and isinstance(v.a[0], T) and v.a[0].op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            #a number made from a condition
            out = []
            for b in (0, 1):
                s2 = st.copy()
                if self.assume(s2, v.a[0], b):
                    out.append((s2, next((x for val, x in targets if val == 1 + b), other)))
            return out
        if not isinstance(v, T):
            st.note(f"switch on {type(v).__name__}")
            v = self.fresh("switch")
        h = self.hooks.get("#switch")
        if h:
            r = h(self, st, fr, v, t)
            if r is not None:
                return r
        out = []
        obb = fr.body["blocks"][other]["t"][0] == "unreachable"
        if ty == "bool" or (v.op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "notb", "and", "or")):
            for val, b in targets:
                s2 = st.copy()
                if self.assume(s2, v, val):
                    out.append((s2, b))
            if not obb:
                s2 = st.copy()
                if self.assume(s2, v, 1 - targets[0][0]):
                    out.append((s2, other))
            return out
        w = WIDTH.get(ty, 64)
        for val, b in targets:
            x = wrap(val, ty) if ty in WIDTH else val
            s2 = st.copy()
            if self.assume(s2, v, x):
                out.append((s2, b))
        if not obb:
            s2 = st.copy()
            good = True
            for val, b in targets:
                x = wrap(val, ty) if ty in WIDTH else val
                if not self.assume_cmp(s2, "Ne", v, x):
                    good = False
            lo, hi = self.bounds(s2, v)
            if lo is not None and hi is not None and lo > hi:
                good = False
            if v.op == "discr" and good:
                n = self.nvariants(fr, t, v)
                f = s2.iv.get(v, (None, None, frozenset()))
                if n is not None:
                    left = [i for i in n if i not in f[2]]
                    if not left:
                        good = False
                    elif len(left) == 1:
                        s2.iv[v] = (left[0], left[0], frozenset())
            if good:
                out.append((s2, other))
        return out

    def nvariants(self, fr, t, v):
        """the discriminants of the enum a discriminant was read from"""
        if t[1][0] not in ("cp", "mv"):
            return None
        loc = t[1][1][0]
        for b in fr.body["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[1] == [loc] and s[2][0] == "discr":
                    ty = self.place_ty(fr, s[2][1])
                    if ty.get("k") == "adt" and ty["p"] in self.P.adts:
                        return [x["d"] for x in self.P.adts[ty["p"]]["v"]]
        return None

    # ---- calls -----------------------------------------------------------------------------------------------------
    def call_term(self, st, fr, t):
        args = [self.operand(st, fr, o) for o in t[2]]
        f = t[1]
        if f[0] == "k" and f[1].get("c") == "fn":
            c = Call()
            c.frame, c.span = fr, t[5]
            c.dest_ty = self.place_ty(fr, t[3])
            c.argtys = [self.op_ty(fr, o) for o in t[2]]
            return self.call_fc(st, FnRef(f[1]["f"], fr), args, c)
        v = self.operand(st, fr, f)
        return self.call_value(st, v, args, fr, t[5])

    def call_value(self, st, f, args, fr=None, span=None):
        """calls a closure, function item or opaque function value"""
        f0 = f
        f = self.load(st, f)
        if isinstance(f, Agg) and f.tag.startswith("closure:"):
            fn = self.P.fns.get(f.tag[8:])
            if fn:
                selfv = f0 if isinstance(f0, Ref) else Ref(self.cell(st, f), ())
                body = fn.j["body"]
                depth = (fr.depth if fr else 0) + 1
                h = self.hooks.get(fn.path)
                if h:
                    c = Call()
                    c.fc, c.frame, c.span, c.dest_ty, c.target, c.key, c.argtys = None, fr, span, None, fn.path, fn.path, []
                    r = self.wrapres(st, h(self, st, args, c))
                    if r is not None:
                        return r
                if body["argc"] == 1 + len(args):
                    return self.run_body(fn, body, [selfv] + list(args), st, fr.subst if fr else {}, depth)
                if body["argc"] == 2:
                    return self.run_body(fn, body, [selfv, tup(*args)], st, fr.subst if fr else {}, depth)
        if isinstance(f, T) and f.op == "fn":
            fref = f.a[0]
            c = Call()
            c.frame, c.span, c.dest_ty, c.argtys = fref.frame or fr, span, {"s": "?"}, []
            if fref.frame is not None:
                if fr and fr.depth > fref.frame.depth:
                    c.frame = copy.copy(fref.frame)
                    c.frame.depth = fr.depth
                io = fref.fc.get("io")
                if io:
                    ts = [fref.frame.fn.types[x] for x in io]
                    c.argtys, c.dest_ty = ts[:-1], ts[-1]
            return self.call_fc(st, fref, list(args), c)
        st.ev("callback", f, tuple(args), span)
        return [(st, T("app", f, *[self.deep(st, a) for a in args]))]

    def wrapres(self, st, r):
        if r is None or r is NotImplemented:
            return None
        if isinstance(r, list):
            return r
        return [(st, r)]

    def subst_for(self, fref, target, fn, argvals):
        """the generic arguments a function is called with"""
        fc = fref.fc
        gen = fn.j.get("gen")
        if gen is None:
            return dict(fref.frame.subst)
        a = fc.get("ra") if fc.get("r") == target and "ra" in fc else fc.get("a", [])
        names = [g for g in gen if not g.startswith("'")]
        if "via" in fc and fc["via"] == target:
            a = []
        out = {}
        T_ = fref.frame.fn.types
        for n, x in zip(names, a):
            if isinstance(x, int):
                ty = T_[x]
                out[n] = fref.frame.subst.get(ty["s"], ty["s"]) if ty.get("k") == "param" else ty["s"]
            elif isinstance(x, list):
                out[n] = x[0]
            elif isinstance(x, str):
                out[n] = fref.frame.subst.get(x, x)
        return out

    def call_fc(self, st, fref, args, c):
        fc, fr = fref.fc, c.frame
        p = fc["p"]
        target = fc.get("via") or fc.get("r") or p
        key = norm(p)
        c.fc, c.target, c.key = fc, target, key
        for hk in (target, p):
            h = self.hooks.get(hk)
            if h:
                r = self.wrapres(st, h(self, st, args, c))
                if r is not None:
                    return r
        fn = self.P.fns.get(target)
        if fn is None and "trait" in fc and fref.frame.subst:
            #a method of a type parameter
            a0 = fc["a"][0] if fc.get("a") else None
            if isinstance(a0, int):
                ty = fref.frame.fn.types[a0]
                s = ty["s"]
                if s in fref.frame.subst:
                    fn = self.impls.get((fc["trait"], fref.frame.subst[s], None, fc["m"]))
        if fn is None and "trait" in fc and target == p and args:
            #a method of a type parameter: the value says which implementation is meant
            v0 = self.load(st, args[0])
            if isinstance(v0, Agg):
                fn = self.by_tag().get((fc["trait"], v0.tag, fc["m"]))
        if fn is not None:
            h = self.hooks.get(fn.path)
            if h and fn.path != target:
                r = self.wrapres(st, h(self, st, args, c))
                if r is not None:
                    return r
            if fn.kind == "fn" or fn.kind == "method" or fn.kind == "closure":
                subst = self.subst_for(fref, target, fn, args)
                body = fn.j["body"]
                if fn.kind == "closure" and len(args) == 2 and fc.get("m") in ("call", "call_mut", "call_once"):
                    #closures take their arguments as one tuple
                    t = self.load(st, args[1])
                    if isinstance(t, Agg) and t.tag == "tuple" and body["argc"] == 1 + len(t.f):
                        args = [args[0], *t.f]
                if body["argc"] == len(args):
                    return self.run_body(fn, body, args, st, subst, (fr.depth if fr else 0) + 1)
        if fn is None:
            g = strip_generics(target)
            par, _, last = g.rpartition("::")
            if par in self.P.adts:
                i = self.P.variant(par, last)
                if i is not None and len(self.P.adts[par]["v"][i]["f"]) == len(args):
                    if self.on_made:
                        self.on_made(st, par, i, args, fr.fn)
                    return [(st, Agg(par, i, list(args)))]
            if g in self.P.adts and self.P.adts[g]["kind"] == "struct" and len(self.P.adts[g]["v"][0]["f"]) == len(args):
                return [(st, Agg(g, 0, list(args)))]
        for k in (key, norm(target), p):
            m = self.models.get(k)
            if m:
                r = self.wrapres(st, m(self, st, args, c))
                if r is not None:
                    return r
        return self.unknown_call(st, args, c)

    def unknown_call(self, st, args, c):
        name = c.key
        self.unknown[name] = self.unknown.get(name, 0) + 1
        if c.target.startswith("core::panicking::") or "begin_panic" in c.target or name.startswith("panicking::"):
            return [(st, Stop("panic", (name, c.frame.fn.path if c.frame else "?", c.span)))]
        muts = [a for a in args if isinstance(a, Ref)]
        if muts:
            st.note("unmodelled call " + name)
            u = self.fresh("call", name)
            for m in muts:
                self.store(st, m, self.fresh("havoc", name))
            return [(st, u)]
        st.ev("call", name, tuple(args), c.span)
        return [(st, T("call", name, *[self.deep(st, a) for a in args]))]

    def type_arg(self, c, i):
        a = c.fc.get("a", [])
        if i < len(a) and isinstance(a[i], int):
            ty = c.frame.fn.types[a[i]]
            if ty.get("k") == "param" and ty["s"] in c.frame.subst:
                return {"k": "subst", "s": str(c.frame.subst[ty["s"]])}
            return ty
        return {"s": "?", "k": "?"}


class Paths(list):
    """the paths of one analysis; whichever is looked at is the current one"""

    def __init__(self, I, l):
        list.__init__(self, l)
        self.I = I

    def __iter__(self):
        cur = self.I.current
        before = cur[0]
        for p in list.__iter__(self):
            cur[0] = p[0]
            if "guess" in p[0].x:
                cur[1] = p[0].x["guess"]
            yield p
        cur[0] = before


class FnRef:
    __slots__ = ("fc", "frame", "_k")

    def __init__(self, fc, frame):
        self.fc, self.frame = fc, frame
        self._k = (fc.get("via") or fc.get("r") or fc["p"], tuple(map(str, fc.get("a", []))), frame.fn.crate)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, FnRef) and self._k == o._k

    def __repr__(self):
        return norm(self._k[0])


def fvalue(x):
    """the number a floating-point term made of constants stands for"""
    import feval
    if isinstance(x, (int, T)):
        try:
            return feval.ev(x, {})
        except (feval.NoEval, TypeError, ValueError, OverflowError, ZeroDivisionError):
            return None


def is_float(x):
    return isinstance(x, T) and (x.op in ("fconst", "i2f", "f2f") or x.op in ("fAdd", "fSub", "fMul", "fDiv", "fRem", "fcall") or (
        x.op == "sym" and len(x.a) > 1 and x.a[1] in ("f32", "f64")) or (x.op == "Neg" and x.a[1] in ("f32", "f64")))


def guards(v):
    out = []
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Agg):
            if x.tag == "guard":
                out.append(x)
            else:
                st.extend(x.f)
        elif isinstance(x, Seq):
            st.extend(x.items)
    return out


def has_guard(v):
    if isinstance(v, Agg):
        if v.tag == "guard":
            return True
        return any(has_guard(x) for x in v.f if isinstance(x, (Agg, Seq)))
    if isinstance(v, Seq):
        return any(has_guard(x) for x in v.items if isinstance(x, (Agg, Seq)))
    return False
