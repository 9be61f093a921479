"""C12: values that compare equal feed the hasher the same data."""
import itertools
from ints import *
import c02

FLOATS = {"f64": {"+0": 0, "-0": 1 << 63, "1": 0x3FF0 << 48, "next after 1": (0x3FF0 << 48) + 1, "-1": 0xBFF0 << 48, "smallest": 1, "-smallest": (1 << 63) | 1,
                  "smallest normal": 1 << 52, "infinity": 0x7FF0 << 48, "-infinity": 0xFFF0 << 48, "nan": 0x7FF8 << 48, "1e-17": 0x3C670EF54646D497},
          "f32": {"+0": 0, "-0": 1 << 31, "1": 0x3F800000, "next after 1": 0x3F800001, "-1": 0xBF800000, "smallest": 1, "-smallest": (1 << 31) | 1,
                  "smallest normal": 1 << 23, "infinity": 0x7F800000, "-infinity": 0xFF800000, "nan": 0x7FC00000, "1e-8": 0x322BCC77}}
EQ, HASH = "core::cmp::PartialEq", "core::hash::Hash"


def eqf(t):
    return f"<{t} as {EQ}>::eq"


def hashf(t):
    return f"<{t} as {HASH}>::hash"


def prime(v):
    """the same shape holding other inputs"""
    if isinstance(v, T):
        if v.op == "sym":
            return T("sym", v.a[0] + "'", *v.a[1:])
        return T(v.op, *[prime(x) if isinstance(x, (T, Agg, Str)) else x for x in v.a])
    if isinstance(v, Agg):
        return Agg(v.tag, v.var, [prime(x) for x in v.f])
    if isinstance(v, Str):
        return Str([p if isinstance(p, str) else prime(p) for p in v.parts])
    if isinstance(v, Seq):
        return Seq([Chunk(x.kind, prime(x.x)) if isinstance(x, Chunk) else prime(x) for x in v.items])
    if isinstance(v, MapV):
        return MapV(v.base, [(prime(k), prime(x)) for k, x in v.over])
    return v


def subst(v, m):
    if isinstance(v, T):
        if v in m:
            return m[v]
        a = tuple(subst(x, m) if isinstance(x, (T, Agg, Str, Seq)) else x for x in v.a)
        return v if a == v.a else T(v.op, *a)
    if isinstance(v, Agg):
        return Agg(v.tag, v.var, [subst(x, m) for x in v.f])
    if isinstance(v, Str):
        return Str([p if isinstance(p, str) else subst(p, m) for p in v.parts])
    if isinstance(v, Seq):
        return Seq([Chunk(x.kind, subst(x.x, m)) if isinstance(x, Chunk) else subst(x, m) for x in v.items])
    return v


def known_equal(I, st, extra=None):
    """what a path takes to be equal, as a substitution"""
    m = {}
    facts = [t for t, b in st.bt.items() if b == 1] + [t for t, f in st.iv.items() if f[0] == f[1] == 1] + ([extra] if isinstance(extra, T) else [])
    facts += [T("Eq", *t.a) for t, b in st.bt.items() if b == 0 and isinstance(t, T) and t.op == "Ne"] + \
             [T("Eq", *t.a) for t, f in st.iv.items() if f[0] == f[1] == 0 and isinstance(t, T) and t.op == "Ne"]

    def add(a, b):
        a, b = canon(I, st, a), canon(I, st, b)
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                if not isinstance(x, Chunk) and not isinstance(y, Chunk):
                    add(x, y)
        a, b = subst(a, m), subst(b, m)
        if isinstance(a, T) and isinstance(b, T) and a is not b:
            m[b] = a
            for k in m:
                m[k] = subst(m[k], {b: a})
    for t in sorted(facts, key=okey):
        if isinstance(t, T) and t.op == "Eq":
            add(t.a[0], t.a[1])
        elif isinstance(t, T) and t.op == "and":
            for x in t.a:
                if isinstance(x, T) and x.op == "Eq":
                    add(x.a[0], x.a[1])
    return m


def streams(ctx, I, st, t, v):
    """[(state, what reaches the hasher)]"""
    s0 = st.copy()
    h = I.cell(s0, T("hasher"))
    n0 = len(s0.events)
    for s, w in I.run(hashf(t), [v, Ref(h, ())], s0):
        ctx.paths += 1
        yield s, w, Seq([canon(I, s, e[1]) for e in s.events[n0:] if e[0] == "hash"])


def pair(ctx, I, key, t, a, b, st=None, must=False):
    """runs eq on both orders; on paths that find a and b equal, compares what is hashed"""
    desc = "equal values hash equally"
    n = 0
    for x, y in ((a, b), (b, a)) if must else ((a, b),):
        for s, w in I.run(eqf(t), [x, y], st.copy() if st else State()):
            ctx.paths += 1
            if isinstance(w, Stop):
                ctx.ob(key, False if w.kind == "panic" else None, desc, f"comparing {short(x)} with {short(y)}: {w}")
                continue
            w = I.simp(s, w)
            if is_int(w) and not w:
                if must:
                    ctx.ob(key, True, desc)
                continue
            extra = None
            if not is_int(w):
                s = s.copy()
                try:
                    I.assume(s, w, 1)
                except Infeasible:
                    continue
                extra = w
            #equal parts are the same part from here on (floating-point zeros are looked at separately)
            m = known_equal(I, s, extra)
            ml = {k: v for k, v in m.items() if k.op == "sym"}
            s = unified(s, ml)
            x1, y1 = subst(x, ml), subst(y, ml)
            for s1, r1, h1 in streams(ctx, I, s, t, x1):
                for s2, r2, h2 in streams(ctx, I, s1, t, y1):
                    n += 1
                    if isinstance(r1, Stop) or isinstance(r2, Stop):
                        bad = [r for r in (r1, r2) if isinstance(r, Stop)]
                        ctx.ob(key, False if all(r.kind == "panic" for r in bad) else None, "values can be hashed", bad[0])
                        continue
                    r, why = same(I, s2, subst(h1, m), subst(h2, m))
                    if r is False:
                        d = witness(I, s2, x1, y1, differing=(h1, h2))
                        r, why = (False, f"for example {d}") if d else (None, why)
                    ctx.ob(key, r, desc, f"{short(x, 300)} equals {short(y, 300)} but they hash {short(h1, 300)} and {short(h2, 300)}; {why}" if r is not True else "")
    if not n:
        ctx.ob(key, True, desc, "never found equal")


def unified(st, m):
    """a path whose facts are put in terms of one of each two equal parts"""
    s = st.copy()
    if m:
        s.iv = {}
        for t, f in st.iv.items():
            u = subst(t, m)
            if isinstance(u, T) and not (u.op in ("Eq", "Ne") and u.a[0] == u.a[1]):
                s.iv[u] = f
        s.bt = {subst(t, m): b for t, b in st.bt.items()}
        s.bt = {t: b for t, b in s.bt.items() if isinstance(t, T) and not (t.op in ("Eq", "Ne") and t.a[0] == t.a[1])}
    return s


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("The comparison and the hashing of values, integers, complex numbers and bit strings are interpreted on pairs of values: each kind against each kind with unrelated "
                       "contents, every stored form of an integer against every other, floating-point constants around zero, bit strings of each length up to 17 with unrelated storage "
                       "bytes, and maps with the same entries in every order. On every path that finds a pair equal, what reaches the hasher must be equal given the facts of that path.")
    ctx.rule("a path on which eq is true leads to the same data being hashed for both sides")
    ctx.assumptions += ["types of other crates (chrono, serde_json, IP addresses, strings) keep the rule themselves"]
    ctx.floor = 5
    if not ctx.need(*(f(t) for f in (eqf, hashf) for t in (VAL, INT, IMAG, BITS))):
        return
    vals = list(c02.values(P))
    hooks = int_hooks()
    hooks[eqf(INT)] = lambda I, st, a, c: sym_eq(I, st, a)
    hooks[hashf(INT)] = lambda I, st, a, c: sym_hash(I, st, a)
    elem = dict(hooks)

    #each kind against each kind
    for n1, x in vals:
        for n2, y in vals:
            key = f"{n1}" if n1 == n2 else f"{n1} / {n2}"
            guard(ctx, key, "equal values hash equally", lambda: pair(ctx, ctx.interp(hooks), key, VAL, x, prime(y), must=n1 == n2))

    #containers
    def el(i):
        return T("sym", f"e{i}")
    vh = dict(hooks)
    vh[eqf(VAL)] = lambda I, st, a, c: None if isinstance(I.load(st, a[0]), Agg) else sym_eq(I, st, a)
    vh[hashf(VAL)] = lambda I, st, a, c: None if isinstance(I.load(st, a[0]), Agg) else sym_hash(I, st, a)
    arr = P.variant(VAL, "Array")
    mp = P.variant(VAL, "Map")
    for n in range(4):
        for k in range(4):
            key = f"Array of {n}" if n == k else f"Array of {n} / {k}"
            x, y = Agg(VAL, arr, (Seq([el(i) for i in range(n)]),)), Agg(VAL, arr, (Seq([prime(el(i)) for i in range(k)]),))
            guard(ctx, key, "equal values hash equally", lambda: pair(ctx, ctx.interp(vh), key, VAL, x, y))
    for n in range(4):
        key = f"Map of {n}"
        ks = [Str((q,)) for q in ("one", "two", "three")[:n]]
        ents = [(q, el(i)) for i, q in enumerate(ks)]
        for perm in itertools.permutations(ents):
            x, y = Agg(VAL, mp, (MapV(None, ents),)), Agg(VAL, mp, (MapV(None, perm),))
            guard(ctx, key, "equal values hash equally", lambda: pair(ctx, ctx.interp(vh), key, VAL, x, y, must=True))

    #floating point, where equal does not mean identical
    for kind, ty in (("SingleFloat", "f32"), ("DoubleFloat", "f64")):
        cs = FLOATS[ty]
        for p, q in itertools.product(cs, cs):
            key = f"{kind} {p} / {q}"
            x, y = (Agg(VAL, P.variant(VAL, kind), (T("fconst", cs[z], ty),)) for z in (p, q))
            guard(ctx, key, "equal values hash equally", lambda: pair(ctx, ctx.interp(hooks), key, VAL, x, y))
    cs = FLOATS["f64"]
    pol = P.variant(IMAG, "PolarForm")
    for p, q in itertools.product(cs, cs):
        for i in (0, 1):
            key = f"polar {'argument' if i else 'modulus'} {p} / {q}"
            one = T("fconst", cs["1"], "f64")
            x, y = (Agg(IMAG, pol, (one, z) if i else (z, one)) for z in (T("fconst", cs[p], "f64"), T("fconst", cs[q], "f64")))
            guard(ctx, key, "equal values hash equally", lambda: pair(ctx, ctx.interp(hooks), key, IMAG, x, y))

    #integers: every stored form against every other
    forms = {}

    def collect():
        I = interp(ctx)
        for t in INTTYS:
            for st, x, v in stored(ctx, I, t):
                if isinstance(v, Agg) and len(v.f) == 3:
                    forms.setdefault((repr(v.f[0]), repr(v.f[2])), []).append((t, v, st))
    guard(ctx, "integers", "stored forms", collect)
    ctx.stats["integer_forms"] = len(forms)
    for (s1, u1), f1 in forms.items():
        for (s2, u2), f2 in forms.items():
            key = f"integers: {s1.split('::')[-1]} and {s2.split('::')[-1]}"

            def go():
                I = interp(ctx)
                t1, v1, st1 = f1[0]
                t2, v2, st2 = f2[0]
                pair(ctx, I, key, INT, v1, prime_seq(v2))
            guard(ctx, key, "equal values hash equally", go)

    #bit strings with whatever is left in their last byte
    for n in range(0, 18):
        w = (n + 7) // 8
        key = f"bits of length {n}"
        x = Agg(BITS, 0, (Seq([T("sym", f"b{i}", "u8") for i in range(w)]), n))
        guard(ctx, key, "equal values hash equally", lambda: pair(ctx, ctx.interp(), key, BITS, x, prime(x)))
        if n:
            y = Agg(BITS, 0, (Seq([T("sym", f"b{i}'", "u8") for i in range((n + 8) // 8)]), n + 1))
            guard(ctx, key + " / longer", "equal values hash equally", lambda: pair(ctx, ctx.interp(), key + " / longer", BITS, x, y))


def prime_seq(v):
    """an integer of the same stored form holding other bytes"""
    def go(x):
        if isinstance(x, T):
            return T("sym", ("other", x), "u8")
        return x
    return Agg(v.tag, v.var, [Seq([go(x) for x in f.items]) if isinstance(f, Seq) else f for f in v.f])


def sym_eq(I, st, a):
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    if x == y:
        return 1
    return T("Eq", *sorted((x, y), key=okey))


def sym_hash(I, st, a):
    st.ev("hash", I.deep(st, a[0]))
    return UNIT
