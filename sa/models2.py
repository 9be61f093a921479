"""Models of the crates the repository uses beyond the standard library: serde_json here, services further down."""
from vals import *
from interp import Stop, norm, ty_range, WIDTH, wrap, is_float
from stdmodels import model, MODELS, L, each, opt_split, fork_opaque, to_str_parts

SJ = "serde_json::value::Value"
SJV = ("Null", "Bool", "Number", "String", "Array", "Object")


def num(src, x):
    return T("num", src, x)


def number_from(I, st, v, src):
    return num(src, I.simp(st, v))


_old_from = MODELS["From::from"]


def m_from2(I, st, a, c):
    dst = c.dest_ty.get("s", "?")
    src = (c.argtys[0] if c.argtys else {}).get("s", "?")
    if dst == "serde_json::number::Number" and src in WIDTH:
        return num(src, I.simp(st, L(I, st, a[0])))
    if dst == SJ:
        v = L(I, st, a[0])
        if src == "bool":
            return Agg(SJ, 1, (v,))
        if src in WIDTH and src not in ("f32", "f64", "char"):
            return Agg(SJ, 2, (num(src, I.simp(st, v)),))
        if src in ("alloc::string::String", "&str"):
            return Agg(SJ, 3, (v,))
        if src == "serde_json::number::Number":
            return Agg(SJ, 2, (v,))
        if src.startswith("serde_json::map::Map"):
            return Agg(SJ, 5, (v,))
        if src.startswith("alloc::vec::Vec<serde_json::value::Value"):
            return Agg(SJ, 4, (v,))
        if src in ("f32", "f64"):
            out = []
            for s, b in I.decide(st, T("finite", v)):
                out.append((s, Agg(SJ, 2, (num("f64", v),)) if b else Agg(SJ, 0, ())))
            return out
        if src == "()":
            return Agg(SJ, 0, ())
    return _old_from(I, st, a, c)


MODELS["From::from"] = m_from2
MODELS["Into::into"] = m_from2


@model("Number::from_f64")
def m_from_f64(I, st, a, c):
    v = I.simp(st, L(I, st, a[0]))
    return [(s, some(num("f64", v)) if b else NONE) for s, b in I.decide(st, T("finite", v))]


@model("Number::from_u128", "Number::from_i128")
def m_from_128(I, st, a, c):
    v = I.simp(st, L(I, st, a[0]))
    lo, hi = (0, (1 << 64) - 1) if c.key.endswith("u128") else (-(1 << 63), (1 << 64) - 1)
    out = []
    s1 = st.copy()
    if I.assume_cmp(s1, "Ge", v, lo) and I.assume_cmp(s1, "Le", v, hi):
        out.append((s1, some(num("u128" if c.key.endswith("u128") else "i128", v))))
    for op, b in (("Lt", lo), ("Gt", hi)):
        s2 = st.copy()
        if I.assume_cmp(s2, op, v, b):
            out.append((s2, NONE))
    return out


def num_as(I, st, v, n):
    """[(state, option)] of Number::as_u64 and its siblings"""
    dst = {"as_u64": "u64", "as_i64": "i64", "as_f64": "f64", "as_u128": "u128", "as_i128": "i128"}[n]
    if isinstance(v, T) and v.op == "num":
        src, x = v.a
        if dst == "f64":
            return [(st, some(x if src == "f64" else T("i2f", "f64", x)))]
        if src == "f64":
            return [(st, NONE)]
        lo, hi = ty_range(dst)
        out = []
        if is_int(x):
            return [(st, some(x) if lo <= x <= hi else NONE)]
        sl, sh = ty_range(src)
        I.assume_cmp(st, "Ge", x, sl)
        I.assume_cmp(st, "Le", x, sh)
        y = I.cast(st, "IntToInt", x, src, dst)
        if lo <= sl and sh <= hi:
            return [(st, some(y))]
        s1 = st.copy()
        if I.assume_cmp(s1, "Ge", x, lo) and I.assume_cmp(s1, "Le", x, hi):
            out.append((s1, some(y)))
        for op, b in (("Lt", lo), ("Gt", hi)):
            s2 = st.copy()
            if I.assume_cmp(s2, op, x, b):
                out.append((s2, NONE))
        return out
    v = I.deep(st, v)
    out = []
    if dst == "f64":
        #a number is always available as a float without the arbitrary-precision feature
        return [(st, some(T("numf", v)))]
    for s, b in I.decide(st, T("numis", dst, v)):
        out.append((s, some(T("sym", ("num", v), dst)) if b else NONE))
    return out


@model("Number::as_u64", "Number::as_i64", "Number::as_f64", "Number::as_u128", "Number::as_i128")
def m_num_as(I, st, a, c):
    return num_as(I, st, L(I, st, a[0]), c.key.split("::")[1])


@model("Number::is_u64", "Number::is_i64", "Number::is_f64")
def m_num_is(I, st, a, c):
    n = c.key.split("::")[1]
    v = L(I, st, a[0])
    if n == "is_f64":
        if isinstance(v, T) and v.op == "num":
            return int(v.a[0] == "f64")
        return T("numis", "f64", I.deep(st, v))
    return each(num_as(I, st, v, "as" + n[2:]), lambda s, o: o.var)


@model("Value::as_u64", "Value::as_i64", "Value::as_f64", "Value::as_str", "Value::as_bool", "Value::as_array", "Value::as_object", "Value::as_number", "Value::as_null")
def m_jv_as(I, st, a, c):
    if "serde_json" not in c.fc["p"]:
        return None
    n = c.key.split("::")[1]
    want = {"as_u64": 2, "as_i64": 2, "as_f64": 2, "as_str": 3, "as_bool": 1, "as_array": 4, "as_object": 5, "as_number": 2, "as_null": 0}[n]
    out = []
    for s, x, k in I.variants(st, a[0], n=6):
        if k != want:
            out.append((s, NONE))
        elif n in ("as_u64", "as_i64", "as_f64"):
            out.extend(num_as(I, s, L(I, s, I.payload(x, k)), n))
        elif n == "as_null":
            out.append((s, some(UNIT)))
        else:
            out.append((s, some(I.payload(x, k))))
    return out


@model("Value::is_object", "Value::is_array", "Value::is_string", "Value::is_number", "Value::is_null", "Value::is_boolean")
def m_jv_is(I, st, a, c):
    if "serde_json" not in c.fc["p"]:
        return None
    want = {"is_null": 0, "is_boolean": 1, "is_number": 2, "is_string": 3, "is_array": 4, "is_object": 5}[c.key.split("::")[1]]
    return [(s, int(k == want)) for s, x, k in I.variants(st, a[0], n=6)]


@model("Value::get")
def m_jv_get(I, st, a, c):
    if "serde_json" not in c.fc["p"]:
        return None
    out = []
    key = L(I, st, a[1])
    for s, x, k in I.variants(st, a[0], n=6):
        if k == 5 and isinstance(key, Str):
            from stdmodels import map_get, getmap
            m = I.payload(x, k)
            m = m if isinstance(m, MapV) else MapV(m)
            for s2, v in map_get(I, s, m, key):
                out.append((s2, NONE if v is ABSENT else some(v)))
        elif k == 4 and is_int(key):
            v = I.payload(x, k)
            out.append((s, some(v.items[key]) if isinstance(v, Seq) and not v.chunks() and key < len(v.items) else NONE))
        else:
            out.append((s, NONE))
    return out


@model("Value::as_object_mut", "Value::as_array_mut")
def m_jv_mut(I, st, a, c):
    want = 5 if "object" in c.key else 4
    out = []
    for s, x, k in I.variants(st, a[0], n=6):
        r = a[0]
        out.append((s, some(Ref(r.cell, r.proj + (("d", k), ("f", 0)))) if k == want and isinstance(r, Ref) else NONE if k != want else some(I.payload(x, k))))
    return out


@model("Value::take")
def m_jv_take(I, st, a, c):
    v = L(I, st, a[0])
    I.store(st, a[0], Agg(SJ, 0, ()))
    return v


def is_text(v, kind):
    """the value some text was printed from"""
    if isinstance(v, Str) and len(v.parts) == 1 and not isinstance(v.parts[0], str):
        v = v.parts[0]
    if isinstance(v, Seq) and len(v.items) == 1 and isinstance(v.items[0], Chunk) and v.items[0].kind in ("utf8", "blob"):
        v = v.items[0].x
        if isinstance(v, Str) and len(v.parts) == 1:
            v = v.parts[0]
    if isinstance(v, T) and v.op in kind:
        return v
    return None


@model("de::from_str", "de::from_slice", "de::from_reader")
def m_json_parse(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    t = c.frame.fn.types[c.dest_ty["a"][0]]["s"] if c.dest_ty.get("a") else "?"
    w = is_text(v, ("json", "display"))
    if w is not None and (w.op == "display" and t == SJ or w.op == "json" and (t == w.a[1] or t == SJ)):
        return ok(w.a[0])
    return fork_opaque(I, st, "parse json " + t, v, RES, T("parsed", t, v))


@model("ser::to_string", "ser::to_vec", "ser::to_string_pretty", "ser::to_vec_pretty")
def m_json_print(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    t = (c.argtys[0] if c.argtys else {}).get("s", "?").lstrip("&")
    j = T("json", v, t)
    good = Str((j,)) if "to_string" in c.key else Seq([Chunk("utf8", j)])
    if t == SJ:
        return ok(good)
    return fork_opaque(I, st, "print json", v, RES, good)


@model("value::to_value")
def m_to_value(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    t = (c.argtys[0] if c.argtys else {}).get("s", "?").lstrip("&")
    if t == SJ:
        return ok(v)
    return fork_opaque(I, st, "to json value", v, RES, T("jsonvalue", v, t))


@model("value::from_value")
def m_from_value(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    t = c.frame.fn.types[c.dest_ty["a"][0]]["s"] if c.dest_ty.get("a") else "?"
    if t == SJ:
        return ok(v)
    return fork_opaque(I, st, "from json value " + t, v, RES, T("parsed", t, v))
