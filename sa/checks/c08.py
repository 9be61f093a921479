"""C08: nested input cannot exhaust the stack of the decoder."""
from opq import *

DESC = "the depth of recursion on input is bounded"
MOST = 4096     #levels of recursion that a stack certainly holds
SJ = "serde_json::value::Value"
FROM_JSON = VAL + "::convert_from_json"


def recursive_adts(P):
    """types that contain themselves: {path: [variants that hold another one]}"""
    out = {}
    for a, d in P.adts.items():
        if d["local"]:
            def holds(v):
                return any(a == x or a + "<" in x or a + ">" in x or a + "," in x or a + ")" in x or a + "]" in x for x in (d["types"][f[1]]["s"] for f in v["f"]))
            vs = [n for n, v in enumerate(d["v"]) if holds(v)]
            if vs:
                out[a] = vs
    return out


def number(v):
    """the integer type of a term"""
    return next((x for x in reversed(v.a) if isinstance(x, str) and ty_range(x) and x != "bool"), None)


def renew(I, old, new, v, names, seen=None):
    """v for a call at any later point of the input: cursors anywhere in unknown input, numbers from the input unknown"""
    seen = {} if seen is None else seen
    if isinstance(v, Agg):
        if v.tag == CUR:
            return stream()
        return Agg(v.tag, v.var, [renew(I, old, new, x, names, seen) for x in v.f])
    if isinstance(v, Ref):
        k = (v.cell, v.proj) if hasattr(v, "proj") else repr(v)
        if k not in seen:
            x = I.load(old, v)
            c = seen[k] = I.cell(new, UNIT)
            new.cells[c] = renew(I, old, new, x, names, seen)
        return Ref(seen[k], ())
    if isinstance(v, Seq):
        return Seq([renew(I, old, new, x, names, seen) for x in v.items])
    if isinstance(v, T) and number(v):
        lo, hi = I.bounds(old, v)
        if lo is not None and lo == hi:
            return lo
        names.append(v)
        return T("sym", ("some number", len(names)), number(v))
    return v


def shape(I, st, v, d=0):
    """what decides how the function goes on, apart from the input"""
    if isinstance(v, Ref):
        return ("ref", shape(I, st, I.load(st, v), d + 1)) if d < 12 else "ref"
    if isinstance(v, Agg):
        return "cursor" if v.tag == CUR else (v.tag, v.var, tuple(shape(I, st, x, d + 1) for x in v.f))
    if isinstance(v, Seq):
        return ("seq", len(v.items), unknown_items(v)) if len(v.items) > 8 else ("seq", tuple(shape(I, st, x, d + 1) for x in v.items))
    if is_int(v):
        return v
    if isinstance(v, T):
        return repr(v) if v.op == "sym" and number(v) else "?"
    return type(v).__name__


def unknown_result(I, f, s):
    rty = f.types[f.j["body"]["locals"][0][0]]["s"]
    I.nfresh += 1
    v = T("sym", ("result", I.nfresh))
    if rty.startswith("core::result::Result<"):
        return [(s.copy(), err(T("sym", "failure"))), (s, ok(v))]
    if rty.startswith("core::option::Option<"):
        return [(s.copy(), NONE), (s, some(v))]
    return [(s, v)]


def levels(ctx, key, hooks, fn, subst, start_):
    """follows a recursive function from one depth to the next until no call goes deeper"""
    P = ctx.P
    f = P.fns[fn]
    edges = []

    def again(I, s, a, c):
        edges.append((s.copy(), a))
        return unknown_result(I, f, s)
    I = ctx.interp({**hooks, fn: again}, max_paths=5000, max_steps=400_000)
    I.max_visits, I.range_max = 6, 4
    I0, st0, args0 = start_
    new = State()
    args = [renew(I0, st0, new, a, []) for a in args0]
    parts = set()
    work, seen, n = [(new, args, frozenset())], {}, 0
    while work:
        st, args, way = work.pop()
        k = shape(I, st, tup(*args))
        if k in seen:
            continue
        seen[k] = 1
        n += 1
        if n > MOST:
            return False, f"{fn} still calls itself {MOST} levels down"
        st.x["reads"] = 5
        entry = st.copy()
        edges.clear()
        over = None
        try:
            ctx.paths += len(I.run(f, args, st, dict(subst)))
        except Budget as e:
            over = e    #the calls seen so far still count
        for s, a in list(edges):
            names, nst = [], State()
            na = [renew(I, s, nst, x, names) for x in a]
            k2 = shape(I, nst, tup(*na))
            w2 = way | {k}
            if os.environ.get("SA_DEBUG"):
                print("level", n, fn, "\n  from", short(I.deep(entry, tup(*args))), "\n  to", short(I.deep(s, tup(*a))))
            part = smaller(I, entry, args, s, a)
            if part:
                parts.add(f.types[f.j["body"]["locals"][part][0]]["s"])
                continue
            if k2 in w2:
                if any("some number" in repr(t) for v in names for t in subterms(v)):
                    return None, f"{fn} calls itself with {short(names[0])}"
                return False, f"{fn} calls itself once per level of the input and nothing counts the levels"
            work.append((nst, na, w2 if len(w2) < 600 else frozenset({k})))
        if over:
            raise over
    return parts.pop() if parts else True, f"{n} levels"


def smaller(I, st, args, s, inner):
    """the parameter of which the call gets a proper part"""
    for i, (a, b) in enumerate(zip(args, inner)):
        a, b = I.deep(st, a), I.deep(s, b)
        if isinstance(a, (int, str)) or isinstance(a, T) and number(a):
            continue
        whole = [a] if isinstance(a, T) else [t for t in subterms(a) if t.op == "sym" and not number(t)]
        if isinstance(b, T) and (b in whole and not isinstance(a, T) or any(t != b and t in whole for t in subterms(b))):
            return i + 1
    return None


def nested_type(ctx, ty, deep):
    """whether data of a type that a decoder has in its hands is nested to a bounded depth: (answer, text)"""
    if SJ in ty:
        if any("disable_recursion_limit" in str(f.get("p")) for g in ctx.P.fns.values() for _, f, _ in g.calls() if f):
            return False, "nested JSON is parsed without a limit on its depth"
        return True, "serde_json gives nested JSON 128 levels at most"
    for a, ok_ in deep.items():
        if a in ty:
            return ok_, f"{a} read from input is nested to {'a bounded' if ok_ else 'any'} depth"
    return None, f"{ty[:80]} may be nested to any depth"


def opened_levels(ctx, key, fn, hooks, prefix, more_args, sub=None):
    """whether input that opens one level after the other is accepted for more levels than may be"""
    I = ctx.interp(hooks, max_paths=2000, max_steps=3_000_000)
    I.max_visits, I.range_max, I.depth_max = 40 * MOST, 14, 60
    st = start(0)
    items = list(prefix) * (MOST + 1) + [Chunk("stream", T("sym", ("stream", "input")))]
    at = ref(I, st, Agg(CUR, 0, (Seq(items), 0)))
    out = I.run(fn, [at, *more_args(I, st)], st, dict(sub or {}))
    ctx.paths += len(out)
    #the input ends after the last of the levels, and that is where it fails
    return any(I.load(s, at).f[1] >= len(items) - 1 for s, _ in out)


def written(ctx, v):
    I = ctx.interp({})
    for s, r in I.run(VAL + "::ser", [v, NONE], State()):
        r = I.deep(s, r)
        if isinstance(r, Seq) and all(is_int(x) for x in r.items):
            return r.items


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Every decoder is interpreted on input of which nothing is known, and JSON import on arrays and objects of unknown elements. Each function that is entered again while it "
                       "runs is followed from the depth it was called with to the next, with the rest of its input unknown every time, until no call goes deeper: the levels must come to "
                       f"an end within {MOST}, or the call must get a proper part of data whose own nesting is bounded. Types that contain themselves must be built by such a "
                       f"function, or input that opens {MOST} levels must be rejected, since dropping the result recurses once per level.")
    ctx.rule(DESC)
    ctx.floor = 3
    rec = recursive_adts(P)
    found, made, ran = {}, {}, {}

    def discover(I, name, hooks):
        def on(fn, subst, args, st):
            found.setdefault((fn.path, tuple(sorted(subst.items()))), []).append((name, hooks, (I, st.copy(), list(args))))
            return unknown_result(I, fn, st)
        I.on_recursion = on

        def mk(st, adt, var, ops, fn):
            if var in rec.get(adt, ()):
                made.setdefault(adt, set()).add(tuple(x.path for x in I.stack))
        I.on_made = mk
        I.range_max, I.max_visits = 14, 60
    for name, hooks, fn, cases, sub in scenarios(ctx):
        if not ctx.need(fn):
            continue
        I = ctx.interp(hooks, max_paths=60000, max_steps=6_000_000)
        discover(I, name, hooks)
        for case, st, args in cases(I):
            def go():
                ctx.paths += len(I.run(fn, args, st, dict(sub)))
            guard(ctx, name + (": " + case if case else ""), DESC, go)
            ran[name] = True
    if ctx.need(FROM_JSON):
        x = T("sym", "json")
        for what, j in (("array", Agg(SJ, 4, (Seq([x]),))), ("object", Agg(SJ, 5, (MapV(None, [(Str((T("sym", "k"),)), x)]),))), ("any", x)):
            I = ctx.interp(int_hooks())
            discover(I, "JSON", int_hooks())

            def go():
                ctx.paths += len(I.run(FROM_JSON, [j], State()))
            guard(ctx, f"JSON: {what}", DESC, go)
    for name in ran:
        ctx.ob(name, True, DESC)
    #functions whose depth counts its levels come first: they decide how deep their results are
    verdicts, deep = {}, {}
    for (fn, sb), l in found.items():
        def go():
            vs = []
            done = set()
            for name, hooks, st0 in l[:400]:
                k = (name, shape(st0[0], st0[1], tup(*st0[2])))
                if k not in done:
                    done.add(k)
                    vs.append(levels(ctx, fn, hooks, fn, dict(sb), st0))
            verdicts[fn, sb] = vs
        guard(ctx, f"recursion of {last(fn, sb)}", DESC, go)
    fine = {fn for (fn, _), vs in verdicts.items() if all(v[0] is True for v in vs)}
    for a, ways in made.items():
        bare = [w for w in ways if not any(f in fine for f in w)]
        deep[a] = not bare
    for a in rec:
        if deep.get(a) is False:
            go = lambda: nests(ctx, a, deep)
            guard(ctx, f"dropping {last(a)}", DESC, go)
        elif deep.get(a):
            ctx.ob(f"dropping {last(a)}", True, DESC)
    for (fn, sb), vs in verdicts.items():
        for ok_, text in vs:
            if isinstance(ok_, str):
                ok_, text = nested_type(ctx, ok_, deep)
            ctx.ob(f"recursion of {last(fn, sb)}", ok_, DESC, text)


def nests(ctx, a, deep):
    """the type is built without such a function: is input with too many levels rejected?"""
    P = ctx.P
    cur, ints, huf, comp = any_cursor(), any_ints(), any_huffman(), any_compressors()
    name = f"dropping {last(a)}"
    if any("ops::drop::Drop" in str(k[0]) and a in str(k[1:]) for k in ctx.interp({}).impls):
        ctx.ob(name, None, DESC, "the type has a destructor of its own")
        return
    hits = []
    if a == VAL:
        nul = Agg(VAL, P.variant(VAL, "Null"), (UNIT,))
        inner = written(ctx, nul)
        for what, v in (("array", Agg(VAL, P.variant(VAL, "Array"), (Seq([nul]),))), ("map", Agg(VAL, P.variant(VAL, "Map"), (MapV(None, [(Str(("",)), nul)]),)))):
            w = written(ctx, v)
            if not w or not inner or list(w[-len(inner):]) != list(inner):
                ctx.ob(f"{name}: {what}", None, DESC, "not written as a prefix")
                continue

            def go():
                hit = opened_levels(ctx, what, f"{VAL}::deser", {**cur, **huf, **comp}, w[:-len(inner)], lambda I, st: [NONE])
                ctx.ob(f"{name}: {what}", not hit, DESC, f"more than {MOST} nested levels are accepted, and dropping the value recurses once for each of them")
                hits.append(hit)
            guard(ctx, f"{name}: {what}", DESC, go)
        deep[a] = not any(hits)
        return
    if a.endswith("Node"):
        for ty in ("u8", "char"):
            def go():
                hit = opened_levels(ctx, ty, f"{HUF}::<{ty}>::deser", {**cur, **ints}, [0], lambda I, st: [], {"T": ty})
                ctx.ob(f"{name}: {ty}", not hit, DESC, f"more than {MOST} nested levels are accepted, and dropping the tree recurses once for each of them")
                hits.append(hit)
            guard(ctx, f"{name}: {ty}", DESC, go)
        deep[a] = not any(hits)
        return
    deep[a] = None
    ctx.ob(name, None, DESC, "how deep it gets is not known")


def last(fn, sb=()):
    return "::".join(fn.split("::")[-2:]) + (f" of {dict(sb)['T']}" if "T" in dict(sb) else "")
