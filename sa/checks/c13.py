"""C13: what is exported to JSON with type tags comes back as the same value, and the tags are the kinds' own."""
from lib import *
from souris import *
from models2 import SJ
import c02

TAGGED = ("Binary", "Imaginary (cartesian)", "Imaginary (polar)", "Timestamp", "Timezone", "Ipv4Addr", "Ipv6Addr")
STORE = "sourisdb::store::Store"


def tags(I, st, v, out=None, depth=0):
    """every value stored under the key souris_type anywhere inside"""
    out = [] if out is None else out
    v = I.load(st, v)
    if isinstance(v, MapV):
        for k, x in v.over:
            if isinstance(k, Str) and k.const() == "souris_type" or k == "souris_type":
                out.append(I.load(st, x))
            else:
                tags(I, st, x, out, depth + 1)
    elif isinstance(v, Agg):
        for x in v.f:
            tags(I, st, x, out, depth + 1)
    elif isinstance(v, Seq):
        for x in v.items:
            if not isinstance(x, Chunk):
                tags(I, st, x, out, depth + 1)
    return out


def tag_number(I, st, v):
    if isinstance(v, Agg) and v.tag == SJ and v.var == 2:
        n = I.load(st, v.f[0])
        if isinstance(n, T) and n.op == "num" and is_int(I.simp(st, n.a[1])):
            return I.simp(st, n.a[1])
    return None


def not_finite(I, st, fs):
    """whether the path has established that one of the floats is not a finite number"""
    for t, b in st.bt.items():
        if b == 0 and isinstance(t, T) and t.op == "finite":
            return True
    return any(isinstance(t, T) and t.op == "finite" and f[0] == f[1] == 0 for t, f in st.iv.items())


def unmodelled(st, v):
    return opaque(v) or any("unmodelled" in q for q in st.notes)


def export(ctx, I, key, fn, args, want, judge_none):
    """[(state, json)] of the exporting paths; judges refusals and the tags"""
    desc = "it can be exported, with the tag of its own kind exactly when tags were asked for"
    out = []
    for st, w in I.run(fn, args, State()):
        ctx.paths += 1
        if isinstance(w, Stop):
            ctx.ob(key, False if w.kind == "panic" else None, desc, f"exporting does not return: {w}")
            continue
        w = I.load(st, w)
        if isinstance(w, Agg) and w.tag in (OPT, RES):
            if w.var != (1 if w.tag == OPT else 0):
                bad = judge_none(I, st)
                ctx.ob(key, None if bad and unmodelled(st, w) else not bad, desc, f"a value JSON can hold is refused: {witness(I, st)}" if bad else "")
                continue
            j = w.f[0]
        elif isinstance(w, Agg) and w.tag == SJ:
            j = w
        else:
            ctx.ob(key, None, desc, f"returns {short(w)}")
            continue
        found = [tag_number(I, st, t) for t in tags(I, st, j)]
        if None in found:
            ctx.ob(key, None, desc, f"a tag is {short(tags(I, st, j))}")
        else:
            ctx.ob(key, found == want, desc, f"the tags exported are {found}, not {want}: {short(j, 200)}" if found != want else "")
        out.append((st, j))
    return out


def importing(ctx, I, key, fn, st, j, x, fields=None):
    desc = "importing what was exported with tags gives back the same value"
    n = 0
    for s2, v in I.run(fn, [j], st.copy()):
        ctx.paths += 1
        n += 1
        if isinstance(v, Stop):
            ctx.ob(key, False if v.kind == "panic" else None, desc, f"importing {short(j, 200)} does not return: {v}")
        elif is_ok(v) or isinstance(v, Agg) and v.tag == OPT and v.var == 1:
            ok_, why = same(I, s2, x, v.f[0])
            ctx.ob(key, ok_, desc, f"{why}; exported as {short(j, 240)}" if ok_ is not True else "")
        elif is_err(v):
            ctx.ob(key, None if unmodelled(s2, v) else False, desc, f"{short(j, 200)} cannot be imported: {short(v)}")
        else:
            ctx.ob(key, None, desc, f"importing gives {short(v)}")
    if not n:
        ctx.ob(key, None, desc, "no path imports it")


def concrete_variants(P, I, name, x):
    """contents every part of which JSON can hold: such a value may not be refused"""
    st = State()
    if name == "Imaginary (cartesian)":
        for re, im in ((5, -7), (0, (1 << 64) - 1), (-(1 << 63), 1)):
            def i(v):
                ty = "u64" if v >= 0 else "i64"
                return T("Int", v, ty)
            yield f"{re}{im:+}i", Agg(VAL, x.var, [Agg(IMAG, P.variant(IMAG, "CartesianForm"), [i(re), i(im)])])


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Value::convert_to_json is interpreted abstractly on a value of each tagged kind with symbolic contents, alone and inside arrays, maps and a store; "
                       "convert_from_json is interpreted on the JSON value each path produces. The result must carry the same value numbers in the same roles, and the tags "
                       "found anywhere in the JSON value must be the kind's own number exactly when tags were asked for.")
    ctx.rule("tagged kinds: tag present iff asked for and equal to the kind's own; import after export gives the same value on every path")
    ctx.assumptions += ["chrono and chrono-tz text forms parse back to what they were printed from", "a serde_json object gives back the value inserted under a key",
                        "binary data is followed at the lengths 0, 1, 2 and 5; its elements go through one loop"]
    ctx.floor = 5
    conv, back = VAL + "::convert_to_json", VAL + "::convert_from_json"
    if not ctx.need(conv, back):
        return
    never = lambda I, st: True

    def polar(I, st):
        return not not_finite(I, st, None)
    # a value's own tag: the number its kind converts to
    own = {}
    for n, v in enumerate(P.adts[TY]["v"]):
        for st, r in ctx.interp({}).run(f"sourisdb::values::<impl core::convert::From<{TY}> for u8>::from", [Agg(TY, n, ())], State()):
            own[v["n"]] = r
    kinds = [(n, x) for n, x in c02.values(P) if n in TAGGED and n != "Binary"]
    for n in (0, 1, 2, 5):
        kinds.append((f"Binary of {n} bytes", Agg(VAL, P.variant(VAL, "Binary"), [Agg(BIN, 0, [Seq([T("sym", f"b{i}", "u8") for i in range(n)])])])))
    for name, x in kinds:
        kind = name.split(" ")[0]
        want = [own.get(kind)]
        none_ok = (lambda I, st: False) if "cartesian" in name else polar if "polar" in name else never

        def one(key, fn, args, shape, n=1, imp=back):
            for t in (1, 0):
                I = ctx.interp(int_hooks())
                for st, j in export(ctx, I, f"{key}:{'tags' if t else 'no tags'}", fn, args + [t], want * n if t else [], none_ok):
                    if t:
                        importing(ctx, I, f"{key}:import", imp, st, j, shape)
        guard(ctx, name, "tagged JSON", lambda: one(name, conv, [x], x))
        arr = Agg(VAL, P.variant(VAL, "Array"), [Seq([x])])
        guard(ctx, name + " in an array", "tagged JSON", lambda: one(name + " in an array", conv, [arr], arr))
        mp = Agg(VAL, P.variant(VAL, "Map"), [MapV(None, [(Str(("k",)), x)])])
        guard(ctx, name + " in a map", "tagged JSON", lambda: one(name + " in a map", conv, [mp], mp))
        if STORE + "::to_json" in P.fns and STORE + "::from_json" in P.fns:
            sto = Agg(STORE, 0, [MapV(None, [(Str(("k",)), x)])])
            guard(ctx, name + " in a store", "tagged JSON", lambda: one(name + " in a store", STORE + "::to_json", [sto], sto, imp=STORE + "::from_json"))
        for cn, cx in concrete_variants(P, None, name, x):
            def conc():
                I = ctx.interp(int_hooks())
                for st, j in export(ctx, I, f"{name} {cn}", conv, [cx, 1], want, never):
                    importing(ctx, I, f"{name} {cn}:import", back, st, j, cx)
            guard(ctx, f"{name} {cn}", "tagged JSON", conc)
