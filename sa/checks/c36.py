"""C36: a value gives its content to whoever asks for its own kind, and to nobody else."""
from lib import *
from souris import *

#name used by the accessors -> (variant, type of the content)
KINDS = {"char": ("Character", "char"), "str": ("String", "alloc::string::String"), "bool": ("Boolean", "bool"), "int": ("Integer", INT), "imaginary": ("Imaginary", IMAG),
         "timestamp": ("Timestamp", "chrono::naive::datetime::NaiveDateTime"), "json": ("JSON", "serde_json::value::Value"), "null": ("Null", "()"), "double_float": ("DoubleFloat", "f64"),
         "single_float": ("SingleFloat", "f32"), "array": ("Array", f"alloc::vec::Vec<{VAL}>"), "map": ("Map", f"hashbrown::map::HashMap<alloc::string::String, {VAL}>"),
         "tz": ("Timezone", "chrono_tz::timezones::Tz"), "ipv4": ("Ipv4Addr", "core::net::ip_addr::Ipv4Addr"), "ipv6": ("Ipv6Addr", "core::net::ip_addr::Ipv6Addr"), "binary": ("Binary", BIN)}
STORE = "sourisdb::store::Store"


def content(name):
    if name == "null":
        return UNIT
    if name == "int":
        return T("Int", T("sym", "n", "i64"), "i64")
    if name in ("char", "bool"):
        x = T("sym", "content", {"char": "char", "bool": "bool"}[name])
        return x
    if name in ("double_float", "single_float"):
        return T("sym", "content", "f64" if name[0] == "d" else "f32")
    if name == "str":
        return Str([T("sym", "text")])
    return T("sym", "content")


def tryfrom(P, t):
    for f in (f"sourisdb::values::<impl core::convert::TryFrom<{VAL}> for {t}>::try_from", f"<{t} as core::convert::TryFrom<{VAL}>>::try_from"):
        if f in P.fns:
            return f


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Each accessor, mutable accessor, extractor, test, constructor and conversion of Value is interpreted on a value of each of the sixteen kinds with unknown content. "
                       "It must succeed exactly for its own kind and give the content itself (for the mutable accessor, the place where the content is), and a refused conversion must name "
                       "the kind found and the kind expected.")
    ctx.rule("as_x, as_mut_x, to_x, is_x, x and TryFrom<Value> agree with the kind of the value; Value::from(integer) is that Integer and comes back by TryFrom when it fits")
    ctx.floor = 60
    var = {v: P.variant(VAL, v) for v, _ in KINDS.values()}
    tyv = {v: P.variant(TY, v) for v, _ in KINDS.values()}
    if not ctx.need(*(f"{VAL}::{p}{n}" for n in KINDS for p in ("as_", "as_mut_", "to_", "is_"))):
        return
    for n, (v, t) in KINDS.items():
        guard(ctx, n, "typed access agrees with the kind", lambda: kind(ctx, n, v, t, var, tyv))
    for t in INTTYS:
        guard(ctx, t, "integers become integer values and come back", lambda: number(ctx, t, var, tyv))
    guard(ctx, "store", "a map, and only a map, becomes a store", lambda: store(ctx, var, tyv))


def values(I, var):
    for m, (w, _) in KINDS.items():
        yield m, w, Agg(VAL, var[w], (content(m),))


def verdict(ctx, key, desc, want, got, how):
    """want/got: whether it succeeded (None: cannot tell)"""
    ctx.ob(key, None if got is None else got == want, desc, how)


def kind(ctx, n, v, t, var, tyv):
    P = ctx.program()
    I = ctx.interp(int_hooks())
    tf = tryfrom(P, t)
    ctor = f"{VAL}::{n}"
    ctx.ob(f"{n}: conversion exists", tf is not None or None, "there is a conversion from a value", t)
    for m, w, x in values(I, var):
        mine = w == v
        for s, r in I.run(VAL + "::as_ty", [Ref(I.cell(s0 := State(), x), ())], s0) if mine and VAL + "::as_ty" in P.fns else []:
            ctx.ob(f"{n}: as_ty", None if not isinstance(r, Agg) else r.var == tyv[v], "a value knows its kind", f"{w} says {r}")
        for p in ("as_", "as_mut_", "to_", "is_"):
            st = State()
            place = I.cell(st, x)
            arg = x if p == "to_" else Ref(place, ())
            key, desc = f"{n}: {p}{n}", f"{p}{n} succeeds exactly for {v} and gives its content"
            for s, r in I.run(f"{VAL}::{p}{n}", [arg], st):
                ctx.paths += 1
                if isinstance(r, Stop):
                    ctx.ob(key, False if r.kind == "panic" else None, desc, r)
                elif p == "is_":
                    ctx.ob(key, r == int(mine) if is_int(r) else None, desc, f"{w}: {r}")
                elif not (isinstance(r, Agg) and r.tag == OPT):
                    ctx.ob(key, None, desc, f"{w}: {short(r)}")
                elif (r.var == 1) != mine:
                    ctx.ob(key, False, desc, f"{w}: {short(r)}")
                elif mine:
                    y = r.f[0]
                    if p == "as_mut_":
                        mark = Agg("other", 0, ())
                        s2 = s.copy()
                        try:
                            I.store(s2, y, mark)
                        except Exception:
                            ctx.ob(key, None, desc, short(y))
                            continue
                        z = s2.cells[place]
                        ctx.ob(key, isinstance(z, Agg) and z.var == var[v] and z.f[0] == mark, desc, f"writing through it leaves {short(z)}")
                        y = L(I, s, y)
                    elif p == "as_":
                        y = L(I, s, y)
                    e = same(I, s, content(n), y)
                    ctx.ob(key, e[0], desc, e[1])
        if tf:
            key, desc = f"{n}: try_from", f"converting a value to {t} succeeds exactly for {v}, and a refusal names what was found and expected"
            for s, r in I.run(tf, [x], State()):
                ctx.paths += 1
                if isinstance(r, Stop):
                    ctx.ob(key, False if r.kind == "panic" else None, desc, r)
                elif not (is_ok(r) or is_err(r)):
                    ctx.ob(key, None, desc, short(r))
                elif is_ok(r) != mine:
                    ctx.ob(key, False, desc, f"{w}: {short(r)}")
                elif mine:
                    e = same(I, s, content(n), r.f[0])
                    ctx.ob(key, e[0], desc, e[1])
                else:
                    named(ctx, key, desc, I, s, r.f[0], tyv[w], tyv[v])
    if ctor in P.fns:
        for s, r in I.run(ctor, [content(n)]):
            e = same(I, s, Agg(VAL, var[v], (content(n),)), r)
            ctx.ob(f"{n}: constructor", e[0], "the constructor makes a value of its kind with the content given", e[1])


def named(ctx, key, desc, I, s, e, found, expected):
    if not (isinstance(e, Agg) and e.tag == VSE and e.var == ctx.program().variant(VSE, "UnexpectedValueType") and len(e.f) == 2):
        ctx.ob(key, None, desc, f"refused with {short(e)}")
        return
    fs = field_names(ctx.program(), VSE, "UnexpectedValueType") or ["found", "expected"]
    d = dict(zip(fs, e.f))
    a, b = d.get("found"), d.get("expected")
    known = isinstance(a, Agg) and isinstance(b, Agg)
    ctx.ob(key, (a.var == found and b.var == expected) if known else None, desc, f"found {short(a)}, expected {short(b)}")


VSE = "sourisdb::values::ValueSerError"


def field_names(P, adt, name):
    for v in P.adts.get(adt, {"v": []})["v"]:
        if v["n"] == name:
            return [f[0] for f in v["f"]]


def number(ctx, t, var, tyv):
    P = ctx.program()
    into = f"<{VAL} as core::convert::From<{t}>>::from"
    tf = tryfrom(P, t)
    if into not in P.fns or not tf:
        ctx.ob(f"{t}: conversions exist", None, "integers become integer values and come back")
        return
    I = ctx.interp(int_hooks())
    x = T("sym", "n", t)
    for s, r in I.run(into, [x]):
        ctx.paths += 1
        key, desc = f"{t}: into a value", "an integer becomes the integer value of that number"
        if isinstance(r, Agg) and r.tag == VAL and r.var != var["Integer"]:
            ctx.ob(key, False, desc, short(r))
        elif isinstance(r, Agg) and r.tag == VAL and isinstance(r.f[0], T) and r.f[0].op == "Int":
            e = same(I, s, x, plainly(I, s, r.f[0].a[0]))
            ctx.ob(key, e[0], desc, e[1])
        else:
            ctx.ob(key, False if isinstance(r, Stop) and r.kind == "panic" else None, desc, short(r))
    src = "i128"
    n = T("sym", "n", src)
    lo, hi = ty_range(t)
    for m, w, v in values(I, var):
        if m == "int":
            v = Agg(VAL, var[w], (T("Int", n, src),))
        for s, r in I.run(tf, [v], State()):
            ctx.paths += 1
            key, desc = f"{t}: from a value", "an integer comes out of an integer value that holds it, and of nothing else"
            if isinstance(r, Stop):
                ctx.ob(key, False if r.kind == "panic" else None, desc, r)
            elif not (is_ok(r) or is_err(r)):
                ctx.ob(key, None, desc, short(r))
            elif m != "int":
                if is_ok(r):
                    ctx.ob(key, False, desc, f"{w}: {short(r)}")
                else:
                    named(ctx, key, desc, I, s, r.f[0], tyv[w], tyv["Integer"])
            elif is_ok(r):
                e = same(I, s, n, plainly(I, s, r.f[0]))
                ctx.ob(key, e[0], desc, e[1])
            else:
                s1 = s.copy()
                if not (I.assume_cmp(s1, "Ge", n, lo) and I.assume_cmp(s1, "Le", n, hi)):
                    ctx.ob(key, True, desc)
                    continue
                w = witness(I, s1, n)
                ctx.ob(key, False if w and not opaque(r) else None, desc, f"{w or I.bounds(s1, n)} refused")


def plainly(I, s, y):
    """without the casts that leave the number as it is"""
    while isinstance(y, T) and y.op == "cast":
        a, b = I.bounds(s, y.a[1])
        q = ty_range(y.a[0])
        if a is None or a < q[0] or b > q[1]:
            break
        y = y.a[1]
    return y


def store(ctx, var, tyv):
    P = ctx.program()
    f = f"<{STORE} as core::convert::TryFrom<{VAL}>>::try_from"
    if f not in P.fns:
        ctx.ob("store", None, "a map, and only a map, becomes a store")
        return
    I = ctx.interp(int_hooks())
    for m, w, v in values(I, var):
        for s, r in I.run(f, [v], State()):
            ctx.paths += 1
            key, desc = "store", "a map, and only a map, becomes a store; a refusal names the kind found"
            if isinstance(r, Stop):
                ctx.ob(key, False if r.kind == "panic" else None, desc, r)
            elif not (is_ok(r) or is_err(r)):
                ctx.ob(key, None, desc, short(r))
            elif is_ok(r) != (m == "map"):
                ctx.ob(key, False, desc, f"{w}: {short(r)}")
            elif m == "map":
                e = same(I, s, Agg(STORE, 0, (content(m),)), r.f[0])
                ctx.ob(key, e[0], desc, e[1])
            else:
                k = [q for q in r.f[0].f if isinstance(q, Agg)] if isinstance(r.f[0], Agg) else []
                ctx.ob(key, k[0].var == tyv[w] if len(k) == 1 and k[0].tag == TY else None, desc, f"{w}: {short(r)}")
