"""What every check shares: obligations, evidence, known findings, and deciding whether two abstract values agree."""
import json, os, random, sys, time, traceback, hashlib
from vals import *
from interp import Interp, State, Stop, Budget, ty_range, wrap, WIDTH, norm
import dump, mir

ROOT = dump.VERIF


class Ctx:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = {}
        self.current = [None, None]     #the state of the path being judged; a guess made on some path of this part
        self.rules = []
        self.assumptions = []
        self.functions = set()
        self.paths = 0
        self.unmodelled = {}
        self.floor = 1
        self.P = None
        self.explanation = ""
        self.stats = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def program(self):
        if self.P is None:
            self.P = mir.Program(dump.dump())
        return self.P

    def interp(self, hooks=None, **kw):
        I = Interp(self.program(), hooks, **kw)
        I.current = self.current
        self._track(I)
        return I

    def _track(self, I):
        self.__dict__.setdefault("interps", []).append(I)

    def ob(self, key, ok, desc="", detail=""):
        """ok: True holds, False violated, None not decided. One False decides the key; otherwise one None does."""
        g = self.current[0].x.get("guess") if self.current[0] is not None else self.current[1]
        if g is None and self.current[0] is not None and self.current[0].notes:
            g = self.current[0].notes[0]
        if g is not None:
            if ok is False:
                ok, detail = None, f"depends on {g}, which is not modelled: {detail}"
        o = self.obs.get(key)
        if o is None:
            self.obs[key] = {"ok": ok, "desc": desc, "detail": str(detail)[:1500], "n": 1}
            return
        o["n"] += 1
        if ok is False and o["ok"] is not False or ok is None and o["ok"] is True:
            o["ok"], o["detail"] = ok, str(detail)[:1500]

    def rule(self, s):
        self.rules.append(s)

    def need(self, *paths):
        """anchors: functions the property is about; all must exist"""
        P = self.program()
        miss = [p for p in paths if p not in P.fns]
        for p in miss:
            self.ob("anchor:" + p, False, "the function this property is anchored at exists", "not found in the analysed program")
        return not miss


def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for l in f:
                if l.startswith(f"known: property={prop} "):
                    rest = l.split(" ", 2)[2].strip()
                    k, _, what = rest.partition(" :: ")
                    if k.startswith("key="):
                        out[k[4:]] = what
    except OSError:
        pass
    return out


def finish(ctx, level="other"):
    known = known_findings(ctx.prop)
    bad = {k: o for k, o in ctx.obs.items() if o["ok"] is False}
    und = {k: o for k, o in ctx.obs.items() if o["ok"] is None}
    good = {k: o for k, o in ctx.obs.items() if o["ok"] is True}
    found = {k: o for k, o in bad.items() if k in known}
    bad = {k: o for k, o in bad.items() if k not in known}
    decided = len(good) + len(found)
    #a tree in which hardly anything could be decided is not reported as a violation, but it is said
    thin = not bad and decided < ctx.floor
    for I in ctx.__dict__.get("interps", []):
        ctx.functions |= I.analysed
        for k, v in I.unknown.items():
            ctx.unmodelled[k] = ctx.unmodelled.get(k, 0) + v
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "explanation": ctx.explanation, "rules": ctx.rules,
            "property_decided": not thin, "obligations": len(ctx.obs), "discharged": len(good), "known_findings": len(found), "undecided": len(und),
            "evaluations": sum(o["n"] for o in ctx.obs.values()), "paths_analysed": ctx.paths,
            "functions_analysed": sorted(ctx.functions), "function_count": len(ctx.functions),
            "unmodelled_calls_kept_opaque": dict(sorted(ctx.unmodelled.items())),
            "samples": [{"obligation": k, "what": o["desc"], "verdict": {True: "holds", False: "violated", None: "not decided"}[o["ok"]],
                         "cases": o["n"], **({"detail": o["detail"]} if o["ok"] is not True else {})} for k, o in ctx.obs.items()],
            **ctx.stats,
        },
        "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 3), "violations": len(bad),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, f"{ctx.prop}.violation.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(d, f"{ctx.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{ctx.prop}: {len(good)} of {len(ctx.obs)} obligations hold, {len(und)} undecided, {len(found)} known findings, {len(bad)} violated "
          f"({len(ctx.functions)} functions, {ctx.paths} paths, {time.time() - ctx.t0:.1f} s)")
    if thin:
        print(f"  NOT DECIDED: only {decided} obligations could be decided, at least {ctx.floor} are needed for the property as a whole")
    for k, o in und.items():
        print(f"  not decided: {k}: {o['detail'][:300]}")
    for k, o in found.items():
        print(f"KNOWN-FINDING: property={ctx.prop} {k}: {known[k]}")
    if bad:
        with open(rp, "w") as f:
            for k, o in bad.items():
                f.write(f"{k}\n  rule: {o['desc']}\n  found: {o['detail']}\n")
        for k, o in bad.items():
            print(f"  violated: {k}\n    rule: {o['desc']}\n    found: {o['detail'][:700]}")
        print(f"VIOLATION property={ctx.prop} replay={os.path.relpath(rp, ROOT)}")
        return 1
    return 0


# ---- agreement of abstract values --------------------------------------------------------------------------------------
OPAQUE = {"fresh", "call", "app", "misread", "stored", "pushed", "subslice", "Offset", "un", "nofield", "havoc", "await"}


def opaque(v):
    return any(t.op in OPAQUE for t in subterms(v))


def has_op(v, op):
    return any(t.op == op for t in subterms(v))


class Unint(Exception):
    pass


def plain_seq(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "seq" and all(isinstance(x, int) for x in v[1])


class Env:
    """an assignment of concrete values to the leaves of terms; anything not interpreted is a token"""

    def __init__(self, vals):
        self.v = vals
        self.memo = {}

    def ev(self, t):
        if isinstance(t, (int, str)) or t is None:
            return t
        if isinstance(t, T):
            r = self.memo.get(t)
            if r is None:
                r = self.memo[t] = self.ev1(t)
            return r
        if isinstance(t, Agg):
            return ("agg", t.tag, t.var, tuple(self.ev(x) for x in t.f))
        if isinstance(t, Seq):
            return ("seq", tuple(self.ev(x) for x in t.items))
        if isinstance(t, Str):
            return ("str",) + tuple(p if isinstance(p, str) else self.ev(p) for p in t.parts)
        if isinstance(t, Chunk):
            return ("chunk", t.kind, self.ev(t.x))
        if isinstance(t, tuple):
            return tuple(self.ev(x) for x in t)
        return ("tok", repr(t))

    def ev1(self, t):
        if t in self.v:
            return self.v[t]
        op = t.op
        if op in ("Add", "Sub", "Mul", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "min", "max"):
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if isinstance(a, int) and isinstance(b, int):
                ty = t.a[2] if len(t.a) > 2 else None
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
                if op in ("Div", "Rem") and b == 0:
                    return ("tok", "div0")
                if op in ("Shl", "Shr") and ty in WIDTH:
                    b %= WIDTH[ty]
                if op in ("Shl", "Shr") and not 0 <= b < 512:
                    return ("tok", "shift")
                r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                     "BitXor": lambda: a ^ b, "Shl": lambda: a << b, "Shr": lambda: a >> b,
                     "Div": lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else 0,
                     "Rem": lambda: abs(a) % abs(b) * (-1 if a < 0 else 1) if b else 0, "min": lambda: min(a, b), "max": lambda: max(a, b)}[op]()
                return wrap(r, ty) if ty in WIDTH and ty not in ("f32", "f64", "bool") else r
            if op in ("Eq", "Ne") and plain_seq(a) and plain_seq(b):
                return int((a == b) == (op == "Eq"))
            if op == "Eq" and a == b:
                return 1
            if op == "Ne" and a == b:
                return 0
            return (op, a, b)
        if op == "notb":
            a = self.ev(t.a[0])
            return 1 - a if isinstance(a, int) else (op, a)
        if op in ("and", "or"):
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == "and" else a | b
            return (op, a, b)
        if op == "Not":
            a = self.ev(t.a[0])
            return wrap(~a, t.a[1]) if isinstance(a, int) else (op, a)
        if op == "Neg" and t.a[1] not in ("f32", "f64"):
            a = self.ev(t.a[0])
            return wrap(-a, t.a[1]) if isinstance(a, int) else (op, a)
        if op == "cast":
            a = self.ev(t.a[1])
            return wrap(a, t.a[0]) if isinstance(a, int) and t.a[0] not in ("f32", "f64") else (op, t.a[0], a)
        if op == "fails":
            r = fails(t.a[0], self.ev(t.a[1]))
            return r if r is not None else (op,) + tuple(self.ev(x) for x in t.a)
        if op in ("overflow", "sat"):
            a, b, r = self.ev(t.a[1]), self.ev(t.a[2]), ty_range(t.a[3])
            if isinstance(a, int) and isinstance(b, int) and r and t.a[0] in ("Add", "Sub", "Mul"):
                x = {"Add": a + b, "Sub": a - b, "Mul": a * b}[t.a[0]]
                return int(not r[0] <= x <= r[1]) if op == "overflow" else max(r[0], min(r[1], x))
            return (op, t.a[0], a, b)
        if op == "div_ceil":
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            return -(-a // b) if isinstance(a, int) and isinstance(b, int) and b > 0 else (op, a, b)
        if op == "from_bytes" and t.a[0] in ("le", "from_le_bytes") and isinstance(t.a[2], Seq) and t.a[1] in WIDTH and t.a[1] not in ("f32", "f64"):
            xs = [self.ev(x) for x in t.a[2].items]
            if all(isinstance(x, int) for x in xs):
                return wrap(int.from_bytes(bytes(x & 255 for x in xs), "little"), t.a[1])
        if op == "byte" and len(t.a) == 4 and isinstance(t.a[1], int):
            a = self.ev(t.a[0])
            if isinstance(a, int) and t.a[3] not in ("f32", "f64"):
                return (a >> (8 * t.a[1])) & 255
        return (op,) + tuple(self.ev(x) for x in t.a)


def fails(name, v):
    """whether a conversion that depends on numbers alone fails, when they are known"""
    if name == "char::from_u32" and isinstance(v, int):
        return int(not (0 <= v < 0xd800 or 0xdfff < v <= 0x10ffff))
    if isinstance(v, tuple) and v and v[0] == "agg" and all(isinstance(x, int) for x in v[3]):
        x = v[3]
        if name == "from_ymd_opt":
            y, m, d = x
            leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
            return int(not (-262143 <= y <= 262142 and 1 <= m <= 12 and 1 <= d <= [31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]))
        if name == "from_hms_nano_opt":
            h, m, s, n = x
            return int(not (h < 24 and m < 60 and s < 60 and (n < 10**9 or n < 2 * 10**9 and s == 59)))
    return None


def leaves(*vs):
    out = []
    for v in vs:
        for t in subterms(v):
            if t.op == "sym" and len(t.a) > 1 and t.a[1] in WIDTH and t.a[1] not in ("f32", "f64") and t not in out:
                out.append(t)
    return sorted(out, key=repr)


def facts_hold(st, e, facts, ls):
    """whether the facts of a path hold for an assignment: False, True, or None when some cannot be evaluated"""
    good = True
    for t, (lo, hi, ex) in facts:
        x = e.ev(t)
        if isinstance(x, int):
            if lo is not None and x < lo or hi is not None and x > hi or x in ex:
                return False
        elif not (t.op == "discr" or t.op == "fails" and free(t)) and set(leaves(t)) & ls:
            #a fact about these leaves that cannot be evaluated: no counterexample can be confirmed
            good = None
    for l in st.lin:
        s = 0
        for t, k in l.items():
            x = 1 if t == 1 and isinstance(t, int) else e.ev(t)
            if not isinstance(x, int):
                s = None
                break
            s += k * x
        if s is not None and s < 0:
            return False
    return good


def free(t):
    """whether an operation may succeed and fail for the same numbers, because it depends on more than numbers"""
    return any(q.op in ("raw", "str_of", "decoded", "parsed", "call") or q.op == "sym" and len(q.a) == 1 for x in t.a[1:] for q in subterms(x))


def pool(I, st, l, facts, rnd):
    """numbers an input may have as far as the facts about it alone go"""
    r = ty_range(l.a[1])
    lo, hi = I.bounds(st, l)
    lo, hi = r[0] if lo is None else max(lo, r[0]), r[1] if hi is None else min(hi, r[1])
    if lo > hi:
        return []
    if hi - lo < 300:
        c = list(range(lo, hi + 1))
    else:
        #numbers that the facts speak of are interesting as well
        near = {x + d for t, f in facts for q in subterms(t) for x in q.a if is_int(x) for d in (-1, 0, 1)} | \
               {x + d for _, (a, b, ex) in facts for x in (a, b, *ex) if is_int(x) for d in (-1, 0, 1)}
        c = {lo, lo + 1, hi, hi - 1, *range(lo, lo + 40), *(x for x in near if lo <= x <= hi)}
        c |= {x for b in range(0, 129, 1) for x in ((1 << b) - 1, 1 << b, -(1 << b)) if lo <= x <= hi}
        c |= {rnd.randint(lo, hi) for _ in range(20)} | {rnd.randint(lo, min(hi, lo + 300)) for _ in range(20)}
        c = sorted(c)
    mine = [(t, f) for t, f in facts if leaves(t) == [l]]
    if mine:
        only = State()
        c = [x for x in c if facts_hold(only, Env({l: x}), mine, {l}) is not False]
    return c


def assignments(I, st, ls, tries):
    """numbers for these inputs that satisfy the facts of a path: all there are when few, else a sample"""
    facts = [(t, f) for t, f in st.iv.items()]
    rnd = random.Random(1)
    lset = set(ls)

    def candidates():
        if small(ls):
            import itertools
            for c in itertools.product(*[range(ty_range(l.a[1])[0], ty_range(l.a[1])[1] + 1) for l in ls]):
                yield dict(zip(ls, c))
        else:
            pools = [pool(I, st, l, facts, rnd) for l in ls]
            if not all(pools):
                return
            for k in range(tries):
                d = {}
                for l, p in zip(ls, pools):
                    c = rnd.random()
                    d[l] = p[0] if c < .1 else p[-1] if c < .2 else p[rnd.randrange(min(len(p), 40))] if c < .4 else rnd.choice(p)
                yield d
    for d in candidates():
        e = Env(d)
        if facts_hold(st, e, facts, lset):
            yield d, e


def small(ls):
    space = 1
    for l in ls:
        r = ty_range(l.a[1])
        space *= r[1] - r[0] + 1
    return space <= 70000


def differ(I, st, a, b, tries=400):
    """an assignment under which two values differ, True when none exists (finitely many, all tried), or None"""
    ls = leaves(a, b)
    for d, e in assignments(I, st, ls, tries):
        x, y = e.ev(a), e.ev(b)
        if x != y and concrete(x) and concrete(y):
            return {repr(k): v for k, v in d.items()} or {"any": "input"}
    return True if small(ls) and ls else None


def witness(I, st, *vs, tries=400, differing=None):
    """numbers for the inputs in these values with which a path can be taken (and two values differ), or None when none were found"""
    for d, e in assignments(I, st, leaves(*vs, *st.iv, *(differing or ())), tries):
        if differing:
            x, y = (e.ev(v) for v in differing)
            if x == y or not (concrete(x) and concrete(y)):
                continue
        return {repr(k): v for k, v in d.items()} or {"any": "input"}


def concrete(x):
    """whether an evaluated value leaves no doubt: integers and tokens of independent inputs, no uninterpreted operation"""
    if isinstance(x, (int, str)) or x is None:
        return True
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("sym", "agg", "seq", "str", "chunk", "chrono", "ip", "byte", "el", "idx", "tzname", "i2f", "f2f", "fconst", "display", "len", "strlen",
                                                   "Int", "json", "fneg", "Neg"):
            return all(concrete(y) for y in x[1:])
        if x and isinstance(x[0], str):
            return False
        return all(concrete(y) for y in x)
    return False


def canon(I, st, v, bins=True):
    """one form for values that have several: strings and byte vectors made of a single opaque part"""
    v = I.deep(st, v)

    def go(v):
        if isinstance(v, Str):
            if len(v.parts) == 1 and not isinstance(v.parts[0], str):
                return go(v.parts[0])
            return Str([p if isinstance(p, str) else go(p) for p in v.parts])
        if isinstance(v, Seq):
            it = [x for x in v.items if not (isinstance(x, Chunk) and I.chunk_len(x) == 0)]
            if len(it) == 1 and isinstance(it[0], Chunk) and it[0].kind in ("blob",):
                return go(it[0].x)
            return Seq([Chunk(x.kind, go(x.x)) if isinstance(x, Chunk) else go(x) for x in it])
        if isinstance(v, Agg):
            return Agg(v.tag, v.var, [go(x) for x in v.f])
        if isinstance(v, T):
            s = I.simp(st, v)
            return s if s is not v and isinstance(s, int) else v
        return v
    return go(v)


def same(I, st, want, got):
    """(True | False | None, why)"""
    a, b = canon(I, st, want), canon(I, st, got)
    return same1(I, st, a, b)


def same1(I, st, a, b):
    if a is b or type(a) is type(b) and a == b:
        return True, ""
    if has_op(b, "misread") and not has_op(a, "misread"):
        return False, f"read back as {short(b)} instead of {short(a)}"
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.tag == b.tag and a.var != b.var:
            return False, f"variant {a} became {b}"
        if a.tag == b.tag and len(a.f) == len(b.f):
            res = True, ""
            for x, y in zip(a.f, b.f):
                r = same1(I, st, x, y)
                if r[0] is False:
                    return r
                if r[0] is None:
                    res = r
            return res
        return (False if not opaque(b) else None), f"{short(a)} became {short(b)}"
    for x, y in ((a, b), (b, a)):
        #an address put together from parts, against the parts of an unknown one
        if isinstance(x, T) and x.op == "ipnew" and isinstance(y, T) and y.op == "sym" and len(x.a) - 1 in (4, 8, 16):
            n, ty = ("segments", "u16") if len(x.a) == 9 else ("octets", "u8")
            return same1(I, st, Seq([T("ip", n, i, y, ty) for i in range(len(x.a) - 1)]), Seq(list(x.a[1:])))
    if isinstance(a, Seq) and isinstance(b, Seq) and not a.chunks() and not b.chunks():
        if len(a.items) != len(b.items):
            return False, f"{len(a.items)} elements became {len(b.items)}: {short(a)} became {short(b)}"
        res = True, ""
        for x, y in zip(a.items, b.items):
            r = same1(I, st, x, y)
            if r[0] is False:
                return r
            if r[0] is None:
                res = r
        return res
    if isinstance(a, MapV) and isinstance(b, MapV):
        return same_map(I, st, a, b)
    if isinstance(a, (int, T)) and isinstance(b, (int, T)):
        e = I.equal(st, a, b)
        if e is True:
            return True, ""
    if opaque(a) or opaque(b):
        return None, f"{short(a)} and {short(b)} could not be compared"
    d = differ(I, st, a, b)
    if d is True:
        return True, ""
    if d is None:
        return None, f"{short(a)} and {short(b)} could not be compared"
    return False, f"{short(a)} became {short(b)} (for example {d})"


def map_entries(m):
    """{key: value} of a map known completely, else None"""
    if m.base is not None:
        return None
    d = {}
    for k, v in m.over:
        if v is ABSENT:
            d.pop(k, None)
        else:
            d[k] = v
    return d


def same_map(I, st, a, b):
    x, y = map_entries(a), map_entries(b)
    if x is None or y is None:
        return None, "maps that are not known completely"
    cx = {canon(I, st, k): v for k, v in x.items()}
    cy = {canon(I, st, k): v for k, v in y.items()}
    for k in cx:
        if k not in cy:
            return (False if not any(opaque(q) for q in cy) else None), f"entry {short(k)} is missing from {short(b)}"
        r = same1(I, st, canon(I, st, cx[k]), canon(I, st, cy[k]))
        if r[0] is not True:
            return r
    for k in cy:
        if k not in cx:
            return (False if not opaque(k) else None), f"entry {short(k)} appeared in {short(b)}"
    return True, ""


def is_ok(v):
    return isinstance(v, Agg) and v.tag == RES and v.var == 0


def is_err(v):
    return isinstance(v, Agg) and v.tag == RES and v.var == 1


def guard(ctx, key, desc, f):
    """runs part of a check; running out of the analysis budget leaves that part undecided"""
    ctx.current[:] = [None, None]
    try:
        f()
    except Budget as e:
        ctx.ob(key, None, desc, f"analysis budget: {e}")
    except RecursionError:
        ctx.ob(key, None, desc, "analysis budget: nesting")
    except dump.BuildFailed:
        raise
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        ctx.ob(key, None, desc, f"analysis failed: {type(e).__name__}: {e}")
