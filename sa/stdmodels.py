"""Models of the standard library and of the external crates the repository uses."""
import copy
from vals import *
import math
import re
from interp import Stop, norm, ty_range, WIDTH, wrap, is_float, fvalue, guards, SIGNED

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            assert n not in MODELS, n
            MODELS[n] = f
        return f
    return d


def L(I, st, v):
    return I.load(st, v)


def each(outs, f):
    """maps the non-stopped outcomes of a call"""
    r = []
    for s, v in outs:
        if isinstance(v, Stop):
            r.append((s, v))
            continue
        x = f(s, v)
        if isinstance(x, list):
            r.extend(x)
        else:
            r.append((s, x))
    return r


def opt_split(I, st, v, n=2):
    """[(state, variant, payload)] for an Option (0 none, 1 some) or Result (0 ok, 1 err)"""
    out = []
    for s, x, k in I.variants(st, v, n=n):
        out.append((s, k, I.payload(x, k)))
    return out


def rewrap(tag, k, *f):
    return Agg(tag, k, f)


# ---- identity-like ---------------------------------------------------------------------------------------------------
@model("Clone::clone", "ToOwned::to_owned", "Option::cloned", "Option::copied", "Result::copied", "Result::cloned", "Borrow::borrow",
       "AsRef::as_ref", "Option::as_ref", "Result::as_ref", "Deref::deref", "Vec::as_slice", "String::as_str", "Option::as_deref",
       "Box::new", "Box::pin", "Arc::clone", "hint::must_use", "[T]::to_vec", "IntoFuture::into_future", "Cow::into_owned",
       "str::to_owned", "Vec::into_boxed_slice", "[T]::into_vec", "slice::into_vec", "Path::as_os_str", "String::into_boxed_str",
       "Arc::new", "Rc::new", "Vec::leak", "String::from", "Result::as_deref", "hint::black_box", "[T]::as_slice", "convert::identity",
       "PathBuf::as_path", "Path::to_path_buf", "Path::new", "Mutex::into_inner", "Box::leak", "Iterator::by_ref_shared", "iter::from_ref",
       "[T; N]::as_slice", "mem::ManuallyDrop::new", "Vec::into_iter_as_slice", "Instrument::instrument", "Instrument::in_current_span",
       "Pin::new", "Pin::new_unchecked", "Pin::get_mut", "Pin::as_mut", "Box::into_pin", "PathBuf::from")
def m_id(I, st, a, c):
    v = a[0]
    n = c.key
    if n in ("Clone::clone", "ToOwned::to_owned", "AsRef::as_ref", "Deref::deref", "Option::as_ref", "Result::as_ref", "Vec::as_slice",
             "[T]::to_vec", "Option::cloned", "Option::copied", "Option::as_deref"):
        v = L(I, st, v)
        if isinstance(v, Agg) and v.tag == "guard":
            return L(I, st, v.f[1])
    return v


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "Iterator::by_ref")
def m_deref_mut(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, Agg) and v.tag == "guard":
        return v.f[1]
    return a[0]


@model("Option::as_mut", "Result::as_mut", "Option::as_deref_mut")
def m_as_mut(I, st, a, c):
    tag = OPT if "Option" in c.key else RES
    out = []
    for s, k, p in opt_split(I, st, a[0]):
        if k == 0 and tag == OPT:
            out.append((s, NONE))
        else:
            r = a[0]
            out.append((s, Agg(tag, k, (Ref(r.cell, r.proj + (("d", k), ("f", 0))) if isinstance(r, Ref) else p,))))
    return out


@model("Into::into", "From::from")
def m_from(I, st, a, c):
    v = a[0]
    t = c.target
    if norm(t) == "T::from" or "From<T> for T" in t or t == c.fc["p"]:
        dst = c.dest_ty.get("s", "?")
        if t == c.fc["p"] and c.key == "Into::into":
            src = I.type_arg(c, 0)["s"]
            return v if src == dst else T("conv", dst, I.deep(st, v))
        if t == c.fc["p"] and "From<T> for T" not in t:
            return T("conv", dst, I.deep(st, v))
        return v
    dst = c.dest_ty.get("s", "?")
    src = (c.argtys[0] if c.argtys else {}).get("s", "?")
    lv = L(I, st, v)
    if dst in WIDTH and (src in WIDTH):
        if src == "bool" and isinstance(lv, T):
            return T("cast", dst, lv, "bool")
        if dst in ("f32", "f64"):
            if src in ("f32", "f64"):
                return T("f2f", dst, lv)
            return I.cast(st, "IntToFloat", lv, src, dst)
        return I.cast(st, "IntToInt", lv, src, dst)
    if dst == "alloc::string::String" and src == "char":
        return Str((chr(lv) if is_int(lv) else T("chr", lv),))
    if dst in ("alloc::string::String", "std::path::PathBuf", "bytes::bytes::Bytes") or dst.startswith("alloc::vec::Vec<") or \
            dst.startswith("alloc::boxed::Box<") or dst.startswith("alloc::sync::Arc<") or dst.startswith("std::ffi::") or dst.startswith("reqwest::"):
        return lv
    if dst.startswith("core::option::Option<"):
        return some(v)
    if dst.startswith("core::net::") or dst.startswith("["):
        return ip_new(I, st, [lv], dst)
    if dst.startswith("hashbrown::map::HashMap") or dst.startswith("std::collections"):
        if isinstance(lv, Seq) and not lv.chunks() and all(isinstance(x, Agg) and len(x.f) == 2 for x in lv.items):
            return MapV(None, [(x.f[0], x.f[1]) for x in lv.items])
    return T("conv", dst, I.deep(st, v))


@model("TryInto::try_into", "TryFrom::try_from")
def m_try_from(I, st, a, c):
    v = L(I, st, a[0])
    dst = c.dest_ty.get("s", "?")
    if dst.startswith("core::result::Result<"):
        at = c.dest_ty.get("a")
        d = c.frame.fn.types[at[0]] if at else {"s": "?", "k": "?"}
        src = (c.argtys[0] if c.argtys else {}).get("s", "?")
        if d["k"] == "ref":
            d = c.frame.fn.types[d["t"]]
        if d["k"] == "array":
            n = d["n"]
            if n is None:
                n = c.frame.subst.get(d["s"].rsplit("; ", 1)[-1].rstrip("]"))
            if not is_int(n):
                return None
            if isinstance(v, Seq):
                if not v.chunks():
                    return ok(v) if len(v.items) == n else err(T("TryFromSliceError"))
                ln = I.seq_len(st, v)
                return fork_res(I, st, T("Eq", ln, n), v, T("TryFromSliceError"))
            ln = I.seq_len(st, v)
            outs = []
            for s, b in I.decide(st, T("Eq", ln, n) if not is_int(ln) else int(ln == n)):
                outs.append((s, ok(Seq([T("idx", v, i) for i in range(n)])) if b else err(T("TryFromSliceError"))))
            return outs
        ds = d["s"]
        if ds in WIDTH and src in WIDTH and ds not in ("f32", "f64") and src not in ("f32", "f64"):
            r = ty_range(ds)
            if is_int(v):
                good = r[0] <= v <= r[1] and not (ds == "char" and 0xD800 <= v <= 0xDFFF)
                return ok(v) if good else err(T("TryFromIntError"))
            lo, hi = I.bounds(st, v)
            if ds == "char":
                if isinstance(v, T) and v.op == "cast" and isinstance(v.a[1], T) and v.a[2:] == ("char",):
                    return ok(v.a[1])
                return fork_opaque(I, st, "char::try_from", v, RES, T("cast", "char", v, src))
            x = I.cast(st, "IntToInt", v, src, ds)
            if lo is not None and hi is not None and r[0] <= lo and hi <= r[1]:
                return ok(x)
            outs = []
            s1 = st.copy()
            if I.assume_cmp(s1, "Ge", v, r[0]) and I.assume_cmp(s1, "Le", v, r[1]):
                outs.append((s1, ok(x)))
            if lo is None or lo < r[0]:
                s2 = st.copy()
                if I.assume_cmp(s2, "Lt", v, r[0]):
                    outs.append((s2, err(T("TryFromIntError"))))
            if hi is None or hi > r[1]:
                s2 = st.copy()
                if I.assume_cmp(s2, "Gt", v, r[1]):
                    outs.append((s2, err(T("TryFromIntError"))))
            return outs
        if ds == "http::status::StatusCode":
            return fork_opaque(I, st, "StatusCode::try_from", v, RES, T("status", v))
    return None


def fork_res(I, st, cond, good, bad):
    return [(s, ok(good) if b else err(bad)) for s, b in I.decide(st, cond)]


def alloc(I, st, n, c):
    """memory for n elements is asked for here; the facts known at this point are kept"""
    n = I.simp(st, n)
    st.ev("alloc", n, c.frame.fn.path if c.frame else "?", c.span, c.key, None if is_int(n) else st.copy())


def fork_opaque(I, st, name, v, tag, good):
    """an operation that may fail for reasons the analysis does not look into"""
    k = T("fails", name, I.deep(st, v))
    out = []
    s1, s2 = st.copy(), st.copy()
    if I.assume(s1, k, 0):
        out.append((s1, some(good) if tag == OPT else ok(good)))
    if I.assume(s2, k, 1):
        out.append((s2, NONE if tag == OPT else err(T("err", name, I.deep(st, v)))))
    return out


# ---- ? ---------------------------------------------------------------------------------------------------------------
@model("Try::branch")
def m_branch(I, st, a, c):
    t = c.target
    isopt = "option::Option" in t
    out = []
    for s, k, p in opt_split(I, st, a[0]):
        if isopt:
            out.append((s, Agg(CF, 0, (p,)) if k == 1 else Agg(CF, 1, (NONE,))))
        else:
            out.append((s, Agg(CF, 0, (p,)) if k == 0 else Agg(CF, 1, (err(p),))))
    return out


@model("FromResidual::from_residual")
def m_residual(I, st, a, c):
    v = L(I, st, a[0])
    if "option::Option" in c.target:
        return NONE
    if isinstance(v, Agg) and v.tag == RES:
        e = v.f[0]
        return each(convert_err(I, st, e, c), lambda s, x: err(x))
    return err(T("fld", v, 1, 0))


def convert_err(I, st, e, c):
    T_ = c.frame.fn.types
    try:
        a = c.fc["a"]
        selft, rest = T_[a[0]], T_[a[1]]
        F, E = T_[selft["a"][1]]["s"], T_[rest["a"][1]]["s"]
    except (KeyError, IndexError, TypeError):
        return [(st, T("conv", "?", e))]
    if F == E:
        return [(st, e)]
    fn = I.impls.get(("core::convert::From", F, (E,), "from"))
    if fn:
        h = I.hooks.get(fn.path)
        return I.run(fn, [e], st, {}, c.frame.depth + 1)
    return [(st, T("conv", F, I.deep(st, e)))]


# ---- Option / Result -------------------------------------------------------------------------------------------------
@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(I, st, a, c):
    want = 1 if c.key in ("Option::is_some", "Result::is_err") else 0
    v = L(I, st, a[0])
    return [(s, int(k == want)) for s, k, p in opt_split(I, st, v)]


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err",
       "Option::unwrap_unchecked", "Result::unwrap_unchecked")
def m_unwrap(I, st, a, c):
    good = 1 if c.key.startswith("Option") or c.key.endswith("_err") else 0
    out = []
    v = L(I, st, a[0])
    for s, k, p in opt_split(I, st, v):
        if k == good:
            out.append((s, p))
        elif isinstance(v, Agg):
            out.append((s, Stop("panic", (c.key, c.frame.fn.path, c.span))))
        else:
            out.append((s, Stop("panic?", (c.key, c.frame.fn.path, c.span, I.deep(st, v)))))
    return out


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::unwrap_or_else",
       "Result::unwrap_or_else")
def m_unwrap_or(I, st, a, c):
    good = 1 if c.key.startswith("Option") else 0
    out = []
    for s, k, p in opt_split(I, st, a[0]):
        if k == good:
            out.append((s, p))
        elif c.key.endswith("default"):
            s.ev("defaulted", c.key, I.deep(s, p), c.frame.fn.path, c.span)
            out.append((s, default_of(I, c, c.dest_ty)))
        elif c.key.endswith("else"):
            s.ev("defaulted", c.key, I.deep(s, p), c.frame.fn.path, c.span)
            out.extend(I.call_value(s, a[1], [p] if c.key.startswith("Result") else [], c.frame, c.span))
        else:
            s.ev("defaulted", c.key, I.deep(s, p), c.frame.fn.path, c.span)
            out.append((s, a[1]))
    return out


@model("Option::map", "Result::map", "Result::map_err", "Option::and_then", "Result::and_then", "Option::inspect", "Result::inspect_err",
       "Option::is_some_and", "Result::is_ok_and", "Option::filter", "Option::is_none_or", "Result::or_else", "Option::or_else", "Result::inspect")
def m_map(I, st, a, c):
    n = c.key
    isopt = n.startswith("Option")
    good = 1 if isopt else 0
    if n in ("Result::map_err", "Result::inspect_err", "Result::or_else"):
        good = 1
    if n == "Option::or_else":
        good = 0
    tag = OPT if isopt else RES
    out = []
    for s, k, p in opt_split(I, st, a[0]):
        if k != good:
            if n in ("Option::is_some_and", "Result::is_ok_and"):
                out.append((s, 0))
            elif n == "Option::is_none_or":
                out.append((s, 1))
            elif isopt and k == 0:
                out.append((s, NONE))
            else:
                out.append((s, Agg(tag, k, (p,))))
            continue
        r = I.call_value(s, a[1], [] if n == "Option::or_else" else [p], c.frame, c.span)
        if n in ("Option::map", "Result::map", "Result::map_err"):
            out.extend(each(r, lambda s2, x, k=k: Agg(tag, k, (x,))))
        elif n in ("Option::inspect", "Result::inspect_err", "Result::inspect"):
            out.extend(each(r, lambda s2, x, k=k, p=p: Agg(tag, k, (p,))))
        elif n == "Option::filter":
            for s2, x in r:
                if isinstance(x, Stop):
                    out.append((s2, x))
                else:
                    out.extend((s3, some(p) if b else NONE) for s3, b in I.decide(s2, x))
        else:
            out.extend(r)
    return out


@model("Option::map_or", "Result::map_or", "Option::map_or_else", "Result::map_or_else")
def m_map_or(I, st, a, c):
    good = 1 if c.key.startswith("Option") else 0
    out = []
    for s, k, p in opt_split(I, st, a[0]):
        if k == good:
            out.extend(I.call_value(s, a[2], [p], c.frame, c.span))
        elif c.key.endswith("else"):
            out.extend(I.call_value(s, a[1], [p] if c.key.startswith("Result") else [], c.frame, c.span))
        else:
            out.append((s, a[1]))
    return out


@model("Option::ok_or", "Option::ok_or_else", "Result::ok", "Result::err", "Option::or", "Result::or", "Option::and", "Option::zip", "Option::xor",
       "Option::flatten", "Result::flatten", "Option::transpose", "Result::transpose")
def m_conv(I, st, a, c):
    n = c.key
    out = []
    for s, k, p in opt_split(I, st, a[0]):
        if n == "Option::ok_or":
            out.append((s, ok(p) if k == 1 else err(a[1])))
        elif n == "Option::ok_or_else":
            if k == 1:
                out.append((s, ok(p)))
            else:
                out.extend(each(I.call_value(s, a[1], [], c.frame, c.span), lambda s2, x: err(x)))
        elif n == "Result::ok":
            out.append((s, some(p) if k == 0 else NONE))
        elif n == "Result::err":
            out.append((s, some(p) if k == 1 else NONE))
        elif n == "Option::or":
            out.append((s, some(p) if k == 1 else a[1]))
        elif n == "Result::or":
            out.append((s, ok(p) if k == 0 else a[1]))
        elif n == "Option::and":
            out.append((s, a[1] if k == 1 else NONE))
        elif n == "Option::zip":
            if k == 0:
                out.append((s, NONE))
            else:
                out.extend((s2, some(tup(p, q)) if k2 == 1 else NONE) for s2, k2, q in opt_split(I, s, a[1]))
        elif n in ("Option::flatten",):
            out.append((s, p if k == 1 else NONE))
        elif n == "Result::flatten":
            out.append((s, p if k == 0 else err(p)))
        elif n == "Option::transpose":
            if k == 0:
                out.append((s, ok(NONE)))
            else:
                out.extend((s2, ok(some(q)) if k2 == 0 else err(q)) for s2, k2, q in opt_split(I, s, p))
        elif n == "Result::transpose":
            if k == 1:
                out.append((s, some(err(p))))
            else:
                out.extend((s2, some(ok(q)) if k2 == 1 else NONE) for s2, k2, q in opt_split(I, s, p))
        else:
            return None
    return out


@model("Option::take", "Option::replace", "mem::take", "mem::replace", "Option::insert", "Option::get_or_insert_with", "mem::swap")
def m_take(I, st, a, c):
    old = L(I, st, a[0])
    n = c.key
    if n == "Option::take":
        I.store(st, a[0], NONE)
        return old
    if n == "Option::replace":
        I.store(st, a[0], some(a[1]))
        return old
    if n == "mem::replace":
        I.store(st, a[0], a[1])
        return old
    if n == "mem::swap":
        o2 = L(I, st, a[1])
        I.store(st, a[0], o2)
        I.store(st, a[1], old)
        return UNIT
    if n == "mem::take":
        I.store(st, a[0], default_of(I, c, c.dest_ty))
        return old
    if n == "Option::insert":
        I.store(st, a[0], some(a[1]))
        return Ref(a[0].cell, a[0].proj + (("d", 1), ("f", 0))) if isinstance(a[0], Ref) else None
    out = []
    for s, k, p in opt_split(I, st, old):
        if k == 1:
            out.append((s, Ref(a[0].cell, a[0].proj + (("d", 1), ("f", 0)))))
        else:
            for s2, v in I.call_value(s, a[1], [], c.frame, c.span):
                if not isinstance(v, Stop):
                    I.store(s2, a[0], some(v))
                    v = Ref(a[0].cell, a[0].proj + (("d", 1), ("f", 0)))
                out.append((s2, v))
    return out


def default_of(I, c, ty):
    s = ty.get("s", "?")
    if s in WIDTH:
        return 0 if s not in ("f32", "f64") else T("fconst", 0, s)
    if s == "alloc::string::String":
        return Str()
    if s.startswith("alloc::vec::Vec<"):
        return Seq()
    if "HashMap<" in s.split("::")[-1] or s.startswith("hashbrown::map::HashMap<") or s.startswith("std::collections::hash::map::HashMap<"):
        return MapV()
    if s.startswith("core::option::Option<"):
        return NONE
    if s == "()":
        return UNIT
    f = I.impls.get(("core::default::Default", s, None, "default"))
    if f:
        r = I.run(f, [], None)
        if len(r) == 1 and not isinstance(r[0][1], Stop):
            return r[0][1]
    return T("default", s)


@model("Default::default")
def m_default(I, st, a, c):
    return default_of(I, c, c.dest_ty)


# ---- mem / misc ------------------------------------------------------------------------------------------------------
@model("mem::drop", "mem::forget")
def m_drop(I, st, a, c):
    if c.key == "mem::drop" and not isinstance(a[0], Ref):
        I.drop_value(st, a[0], c.span)
    return UNIT


@model("mem::discriminant", "intrinsics::discriminant_value", "Discriminant::clone")
def m_discr(I, st, a, c):
    v = L(I, st, a[0])
    return I.discr_of(st, v, None)


@model("PartialOrd::le", "PartialOrd::lt", "PartialOrd::ge", "PartialOrd::gt", "PartialEq::eq", "PartialEq::ne", "str::eq", "Ord::cmp_eq")
def m_cmp(I, st, a, c):
    n = c.key.rsplit("::", 1)[1]
    for t in c.argtys:
        if "tracing" in t["s"] or "log::Level" in t["s"]:
            return 0
    x, y = L(I, st, a[0]), L(I, st, a[1])
    op = {"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt", "eq": "Eq", "ne": "Ne"}[n]
    if op in ("Eq", "Ne"):
        #an eq written in the repository
        for t in c.argtys[:1]:
            s = t["s"].lstrip("&")
            fn = I.impls.get(("core::cmp::PartialEq", s, None, "eq"))
            if fn and isinstance(x, Agg) and isinstance(y, Agg):
                a_ = I.P.adts.get(x.tag)
                if not (a_ and a_["kind"] == "enum" and not x.f and not y.f):
                    h = I.hooks.get(fn.path)
                    outs = I.run(fn, [x, y], st, {}, c.frame.depth + 1)
                    if op == "Eq":
                        return outs
                    return each(outs, lambda s, v: (1 - v) if is_int(v) else T("notb", v))
        x, y = I.deep(st, x), I.deep(st, y)
        r = I.equal(st, x, y)
        if r is not None:
            return int(r if op == "Eq" else not r)
        p, q = sorted((x, y), key=okey)
        return T(op, p, q)
    r = I.cmp(st, op, x, y) if isinstance(x, (int, T)) and isinstance(y, (int, T)) else None
    if r is not None and not is_float(x):
        return r
    return T(op, x, y)


@model("Ord::cmp", "PartialOrd::partial_cmp", "f64::total_cmp", "f32::total_cmp")
def m_ordcmp(I, st, a, c):
    x, y = L(I, st, a[0]), L(I, st, a[1])
    if is_int(x) and is_int(y):
        r = Agg(ORD, 0 if x < y else 1 if x == y else 2, ())
    elif c.argtys and c.argtys[0]["s"].lstrip("&") in WIDTH and not is_float(x) and not c.argtys[0]["s"].endswith(("f32", "f64")):
        out = []
        ty = c.argtys[0]["s"].lstrip("&")
        for s, b in I.decide(st, I.binop(st, None, "Lt", x, y, ty)):
            if b:
                out.append((s, Agg(ORD, 0, ())))
                continue
            for s2, e in I.decide(s, I.binop(s, None, "Eq", x, y, ty)):
                out.append((s2, Agg(ORD, 1 if e else 2, ())))
        return each(out, lambda s, v: some(v)) if c.key == "PartialOrd::partial_cmp" else out
    else:
        r = T("Cmp", x, y)
    return some(r) if c.key == "PartialOrd::partial_cmp" else r


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne", "Ordering::reverse", "Ordering::then")
def m_ordering(I, st, a, c):
    v, n = L(I, st, a[0]), c.key.split("::")[1]
    if not (isinstance(v, Agg) and v.tag == ORD):
        return None
    k = v.var
    if n == "reverse":
        return Agg(ORD, 2 - k, ())
    if n == "then":
        return v if k != 1 else L(I, st, a[1])
    return int({"is_lt": k == 0, "is_le": k < 2, "is_gt": k == 2, "is_ge": k > 0, "is_eq": k == 1, "is_ne": k != 1}[n])


@model("Ordering::then_with")
def m_then_with(I, st, a, c):
    v = L(I, st, a[0])
    if not (isinstance(v, Agg) and v.tag == ORD):
        return None
    return v if v.var != 1 else I.call_value(st, a[1], [], c.frame, c.span)


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max", "usize::min", "usize::max")
def m_min(I, st, a, c):
    x, y = L(I, st, a[0]), L(I, st, a[1])
    mx = c.key.endswith("max")
    r = I.cmp(st, "Le", x, y)
    if r is not None:
        return (y if r else x) if mx else (x if r else y)
    if I.cmp(st, "Le", y, x) == 1:
        return x if mx else y
    if is_float(x) or is_float(y):
        return T("max" if mx else "min", x, y)
    return [(s, (y if b else x) if mx else (x if b else y)) for s, b in I.decide(st, T("Le", x, y))]


# ---- integers --------------------------------------------------------------------------------------------------------
def int_methods():
    for t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"):
        for m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes", "from_le_bytes", "from_be_bytes", "from_ne_bytes", "to_bits", "from_bits", "to_le", "to_be"):
            def f(I, st, a, c, t=t, m=m):
                return bytes_model(I, st, a, t, m)
            MODELS[f"{t}::{m}"] = f
        for m in ("checked_add", "checked_sub", "checked_mul", "wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_sub", "saturating_add",
                  "saturating_mul", "overflowing_add", "overflowing_sub", "overflowing_mul", "div_ceil", "checked_add_signed", "is_positive", "is_negative",
                  "unsigned_abs", "wrapping_neg", "checked_neg", "leading_zeros", "trailing_zeros", "count_ones", "is_multiple_of",
                  "checked_div", "checked_rem", "pow", "abs", "checked_shl", "checked_shr", "next_multiple_of", "is_power_of_two", "abs_diff", "swap_bytes",
                  "checked_sub_signed", "checked_sub_unsigned", "checked_add_unsigned", "checked_abs", "wrapping_abs", "signum", "rem_euclid", "div_euclid",
                  "wrapping_shl", "wrapping_shr", "ilog2", "saturating_add_signed", "checked_pow"):
            if t in ("f32", "f64"):
                continue

            def g(I, st, a, c, t=t, m=m):
                return arith_model(I, st, a, t, m, c)
            MODELS[f"{t}::{m}"] = g
    for t in ("f32", "f64"):
        for m in ("abs", "fract", "round", "trunc", "floor", "ceil", "is_finite", "is_nan", "is_infinite", "classify", "atan2", "cos", "sin", "hypot", "sqrt", "atan",
                  "signum", "is_sign_negative", "is_sign_positive", "is_normal", "powi", "powf", "tan", "acos", "asin", "sin_cos", "rem_euclid", "copysign", "mul_add", "min",
                  "max", "clamp"):
            def h(I, st, a, c, t=t, m=m):
                x = [L(I, st, v) for v in a]
                if m in ("is_finite", "is_nan", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal"):
                    return T("fpred", m, *x)
                if m == "classify":
                    y = fvalue(x[0])
                    if y is not None:
                        k = 0 if y != y else 1 if y in (math.inf, -math.inf) else 2 if y == 0 else 3 if abs(y) < (2.0 ** -126 if t == "f32" else 2.0 ** -1022) else 4
                        return Agg("core::num::FpCategory", k, ())
                if m == "sin_cos":
                    return tup(T("fcall", "sin", *x), T("fcall", "cos", *x))
                return T("fcall", m, *x)
            MODELS.setdefault(f"{t}::{m}", h)


def bytes_model(I, st, a, t, m):
    w = WIDTH[t] // 8
    if t == "usize" or t == "isize":
        w = 8
    v = L(I, st, a[0])
    isf = t in ("f32", "f64")
    if isf and isinstance(v, T) and v.op == "fconst" and is_int(v.a[0]) and m.startswith("to_"):
        if m == "to_bits":
            return v.a[0]
        items = list((v.a[0] & ((1 << 8 * w) - 1)).to_bytes(w, "little"))
        return Seq(items[::-1] if m == "to_be_bytes" else items)
    if m == "to_bits":
        return T("bits", v, t)
    if m == "from_bits":
        return v.a[0] if isinstance(v, T) and v.op == "bits" and v.a[1] == t else T("frombits", v, t)
    if m in ("to_le", "to_be"):
        return v if m == "to_le" else T("swap", v, t)
    if m.startswith("to_"):
        if is_int(v) and not isf:
            b = (v & ((1 << 8 * w) - 1)).to_bytes(w, "little")
            items = list(b)
        else:
            items = [T("byte", v, i, w, t) for i in range(w)]
        if m == "to_be_bytes":
            items.reverse()
        return Seq(items)
    if not isinstance(v, Seq) or len(v.items) != w or v.chunks():
        if isinstance(v, Seq) and len(v.items) == w and False:
            pass
        return T("from_bytes", m, t, I.deep(st, v))
    items = list(v.items)
    if m == "from_be_bytes":
        items.reverse()
    if all(is_int(x) for x in items) and not isf:
        return wrap(int.from_bytes(bytes(items), "little"), t)
    x0 = items[0]
    if isinstance(x0, T) and x0.op == "byte" and all(
            isinstance(x, T) and x.op == "byte" and x.a[0] == x0.a[0] and x.a[1] == i and x.a[2] == w for i, x in enumerate(items)):
        if x0.a[3] == t:
            return x0.a[0]
        if not isf and x0.a[3] not in ("f32", "f64"):
            return I.cast(st, "IntToInt", x0.a[0], x0.a[3], t)
        return T("reinterp", t, x0.a[0], x0.a[3])
    #all (or the low) bytes of a number, extended by its sign
    for x0 in items:
        if isinstance(x0, T) and x0.op == "byte":
            break
    if isinstance(x0, T) and x0.op == "byte" and x0.a[3] in WIDTH and x0.a[3] not in ("f32", "f64") and not isf:
        x, ws, s = x0.a[0], x0.a[2], x0.a[3]
        lo, hi = I.bounds(st, x)
        fill = 0 if lo is not None and lo >= 0 else 255 if hi is not None and hi < 0 else None
        for j, y in enumerate(items):
            wanted = I.simp(st, T("byte", x, j, ws, s)) if j < ws else fill
            if wanted is None or not (I.simp(st, y) == wanted and (isinstance(wanted, T) == isinstance(I.simp(st, y), T))):
                break
        else:
            return I.cast(st, "IntToInt", x, s, t)
    return T("from_bytes", "le", t, Seq(items))


def arith_model(I, st, a, t, m, c):
    v = [I.simp(st, L(I, st, x)) for x in a]
    r = ty_range(t)
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}.get(m.rsplit("_", 1)[-1])
    if m == "checked_add_signed" or m == "checked_sub_unsigned" or m == "checked_add_unsigned" or m == "checked_sub_signed" or m == "saturating_add_signed":
        op = "Add" if "add" in m else "Sub"
    if op:
        if all(is_int(x) for x in v):
            x = {"Add": v[0] + v[1], "Sub": v[0] - v[1], "Mul": v[0] * v[1]}[op]
            fits = r[0] <= x <= r[1]
            if m.startswith("checked"):
                return some(x) if fits else NONE
            if m.startswith("wrapping"):
                return wrap(x, t)
            if m.startswith("overflowing"):
                return tup(wrap(x, t), int(not fits))
            return max(r[0], min(r[1], x))
        x = I.binop(st, c.frame, op, v[0], v[1], t)
        o = I.overflow(st, op, v[0], v[1], t, x)
        if is_int(o) and o == 0 and isinstance(x, T):
            st.bt[("nowrap", x)] = 1
        if m.startswith("wrapping"):
            return x
        if m.startswith("overflowing"):
            return tup(x, o)
        if m.startswith("saturating"):
            if is_int(o) and not o:
                return x
            y = T("sat", op, v[0], v[1], t)
            if r and r[0] == 0 and op in ("Add", "Mul") and (op == "Add" or is_int(v[1]) or is_int(v[0])):
                l = I.linear(T(op, v[0], v[1]))
                I.linear(y, -1, l)
                st.lin.append(l)
            return y
        if is_int(o) and not o:
            return some(x)
        s1, s2 = st.copy(), st.copy()
        out = []
        #what success says about the operands
        if isinstance(x, T):
            s1.bt[("nowrap", x)] = 1
        okk = True
        if op == "Sub" and isinstance(v[0], (T, int)):
            okk = I.assume_cmp(s1, "Ge", v[0], v[1]) if r[0] == 0 and m == "checked_sub" else True
        if op in ("Add",) and r:
            l = I.linear(v[0], -1)
            I.linear(v[1], -1, l)
            l[1] = l.get(1, 0) + r[1]
            s1.lin.append(l)
        if okk:
            out.append((s1, some(x)))
        k = T("overflow", op, v[0], v[1], t)
        bad = True
        if op == "Sub" and r[0] == 0 and m == "checked_sub":
            bad = I.assume_cmp(s2, "Lt", v[0], v[1])
        if bad and I.assume(s2, k, 1):
            out.append((s2, NONE))
        return out
    if m == "div_ceil":
        if all(is_int(x) for x in v) and v[1]:
            return -(-v[0] // v[1])
        return T("div_ceil", *v, t)
    if m == "is_multiple_of":
        if all(is_int(x) for x in v) and v[1]:
            return int(v[0] % v[1] == 0)
        return T("Eq", T("Rem", v[0], v[1], t), 0)
    if m in ("is_negative", "is_positive"):
        return (int(v[0] < 0 if m == "is_negative" else v[0] > 0) if is_int(v[0]) else T("Lt" if m == "is_negative" else "Gt", v[0], 0))
    if all(is_int(x) for x in v):
        x = v[0]
        if m == "leading_zeros":
            return WIDTH[t] - (x & ((1 << WIDTH[t]) - 1)).bit_length()
        if m == "count_ones":
            return bin(x & ((1 << WIDTH[t]) - 1)).count("1")
        if m in ("unsigned_abs", "abs"):
            return abs(x)
        if m == "pow":
            return wrap(x ** v[1], t)
        if m == "abs_diff":
            return abs(x - v[1])
    return T("arith", m, *v, t)


int_methods()


@model("Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem", "BitAnd::bitand", "BitOr::bitor", "Not::not", "Neg::neg", "BitXor::bitxor")
def m_op(I, st, a, c):
    n = c.key.split("::")[0]
    v = [L(I, st, x) for x in a]
    t = c.dest_ty.get("s", "?")
    if len(v) == 2 and t in WIDTH:
        at = [x.get("s", "?") for x in c.argtys or []]
        if n in ("Add", "Sub", "Mul") and at == [t, t] and t not in ("f32", "f64", "char", "bool"):
            #the operator as a function: overflow panics, as in the profile analysed
            r = arith_model(I, st, v, t, "checked_" + n.lower(), c)
            r = r if isinstance(r, list) else [(st, r)]
            return [(s, o.f[0] if o.var == 1 else Stop("panic", (f"overflow {n}", c.frame.fn.path, c.span))) for s, o in r]
        if n in ("Div", "Rem") and at == [t, t] and t not in ("f32", "f64", "char", "bool"):
            x, y = I.simp(st, v[0]), I.simp(st, v[1])
            out = []
            lo = ty_range(t)[0]
            for s, z in I.decide(st, T("Eq", y, 0)) if not is_int(y) else [(st, int(y == 0))]:
                if z:
                    out.append((s, Stop("panic", (f"{n} by zero", c.frame.fn.path, c.span))))
                    continue
                over = [(s, 0)]
                if lo < 0:
                    o = T("and", T("Eq", x, lo), T("Eq", y, -1)) if not (is_int(x) or is_int(y)) else 0 if is_int(x) and x != lo or is_int(y) and y != -1 else 1 if is_int(x) and is_int(y) \
                        else T("Eq", y, -1) if is_int(x) else T("Eq", x, lo)
                    over = I.decide(s, o) if not is_int(o) else [(s, o)]
                for s2, o in over:
                    out.append((s2, Stop("panic", (f"overflow {n}", c.frame.fn.path, c.span)) if o else I.binop(s2, c.frame, n, x, y, t)))
            return out
        return I.binop(st, c.frame, n, v[0], v[1], t)
    return T("opcall", n, *[I.deep(st, x) for x in v])


@model("AddAssign::add_assign", "SubAssign::sub_assign")
def m_opassign(I, st, a, c):
    x, y = L(I, st, a[0]), L(I, st, a[1])
    if isinstance(x, Str):
        I.store(st, a[0], Str(x.parts + to_str_parts(y)))
    else:
        t = c.argtys[0]["s"].replace("&mut ", "") if c.argtys else "?"
        I.store(st, a[0], I.binop(st, c.frame, "Add" if c.key.startswith("Add") else "Sub", x, y, t))
    return UNIT


# ---- strings ---------------------------------------------------------------------------------------------------------
def to_str_parts(v):
    if isinstance(v, Str):
        return v.parts
    return (v,)


@model("String::new", "String::with_capacity")
def m_string_new(I, st, a, c):
    if a:
        alloc(I, st, a[0], c)
    return Str()


@model("ToString::to_string")
def m_to_string(I, st, a, c):
    v = L(I, st, a[0])
    t = c.argtys[0]["s"].lstrip("&") if c.argtys else "?"
    if isinstance(v, Str) or t in ("str", "alloc::string::String"):
        return v
    if is_int(v):
        return Str((chr(v),)) if t == "char" else Str(("true" if v else "false",)) if t == "bool" else Str((str(v),))
    return T("display", I.deep(st, v))


@model("String::as_bytes", "str::as_bytes", "String::into_bytes")
def m_as_bytes(I, st, a, c):
    v = L(I, st, a[0])
    return str_bytes(v)


def str_bytes(v):
    if isinstance(v, Str):
        items = []
        for p in v.parts:
            if isinstance(p, str):
                items.extend(p.encode())
            else:
                items.append(Chunk("utf8", p))
        return Seq(items)
    if isinstance(v, T):
        if v.op == "str_of":
            return v.a[0]
        return Seq([Chunk("utf8", v)])
    return T("as_bytes", v)


@model("String::from_utf8", "str::from_utf8", "converts::from_utf8", "String::from_utf8_lossy")
def m_from_utf8(I, st, a, c):
    v = L(I, st, a[0])
    w = (lambda x: x) if c.key.endswith("lossy") else ok
    if isinstance(v, Seq):
        if all(is_int(x) for x in v.items):
            try:
                return w(Str((bytes(v.items).decode(),)))
            except UnicodeDecodeError:
                return err(T("Utf8Error"))
        if all(is_int(x) or isinstance(x, Chunk) and x.kind == "utf8" for x in v.items):
            parts = []
            for x in v.items:
                parts.append(x.x if isinstance(x, Chunk) else chr(x))
            return w(parts[0] if len(parts) == 1 and not isinstance(parts[0], str) else Str(parts))
        if len(v.items) == 1 and isinstance(v.items[0], T) and v.items[0].op == "byte":
            pass
    if c.key.endswith("lossy"):
        return T("str_of", I.deep(st, v))
    return fork_opaque(I, st, "from_utf8", v, RES, T("str_of", I.deep(st, v)))


@model("String::push_str", "String::push", "String::insert_str", "OsString::push")
def m_push_str(I, st, a, c):
    s = L(I, st, a[0])
    x = L(I, st, a[1])
    if is_int(x):
        x = chr(x)
    I.store(st, a[0], Str(to_str_parts(s) + (to_str_parts(x) if not isinstance(x, str) else (x,))))
    return UNIT


@model("String::is_empty", "str::is_empty", "str::len", "String::len", "Vec::len", "[T]::len", "Vec::is_empty", "[T]::is_empty", "HashMap::len",
       "HashMap::is_empty", "VecDeque::len", "VecDeque::is_empty", "ExactSizeIterator::len", "Map::len", "Map::is_empty", "Bytes::len", "Bytes::is_empty")
def m_len(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, Agg) and v.tag == "iter" and v.var == "seq" and isinstance(v.f[0], Seq):
        v = Seq(v.f[0].items[v.f[1]:v.f[2]])
    n = I.seq_len(st, v)
    if c.key.endswith("is_empty"):
        return int(n == 0) if is_int(n) else T("Eq", n, 0)
    return n


@model("str::chars", "str::bytes", "str::char_indices")
def m_chars(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, Str) and v.const() is not None:
        s = v.const()
        items = [ord(x) for x in s] if c.key == "str::chars" else list(s.encode()) if c.key == "str::bytes" else None
        if items is not None:
            return it_seq(Seq(items))
    return Agg("iter", "opaque", (T(c.key, v), 0))


@model("str::is_ascii", "String::is_ascii")
def m_is_ascii(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, Str) and v.const() is not None:
        return int(v.const().isascii())
    return T("pred", "is_ascii", v)


@model("str::contains", "str::starts_with", "str::ends_with", "str::find", "str::strip_prefix", "str::strip_suffix", "str::trim", "str::to_lowercase",
       "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::eq_ignore_ascii_case", "str::trim_end_matches")
def m_strfn(I, st, a, c):
    v = [I.deep(st, L(I, st, x)) for x in a]
    m = c.key.split("::")[1]
    cs = v[0].const() if isinstance(v[0], Str) else None
    if cs is not None and m in ("contains", "starts_with", "ends_with") and len(v) > 1:
        p = v[1]
        if isinstance(p, Str) and p.const() is not None:
            p = p.const()
            return int({"contains": p in cs, "starts_with": cs.startswith(p), "ends_with": cs.endswith(p)}[m])
        if is_int(p):
            p = chr(p)
            return int({"contains": p in cs, "starts_with": cs.startswith(p), "ends_with": cs.endswith(p)}[m])
        if isinstance(p, Seq) and all(is_int(x) for x in p.items) and m == "contains":
            return int(any(chr(x) in cs for x in p.items))
    if cs is not None and m in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim"):
        return Str((cs.lower() if "lower" in m else cs.upper() if "upper" in m else cs.strip(),))
    cp = v[1].const() if len(v) > 1 and isinstance(v[1], Str) else chr(v[1]) if len(v) > 1 and is_int(v[1]) and 0 <= v[1] < 0x110000 else None
    if cs is not None and cp is not None:
        if m == "eq_ignore_ascii_case":
            return int(cs.isascii() and cp.isascii() and cs.lower() == cp.lower() or cs == cp)
        if m == "find":
            k = cs.find(cp)
            return some(len(cs[:k].encode())) if k >= 0 else NONE
        if m == "strip_prefix":
            return some(Str((cs[len(cp):],)) if len(cs) > len(cp) else Str(())) if cs.startswith(cp) else NONE
        if m == "strip_suffix":
            return some(Str((cs[:len(cs) - len(cp)],)) if len(cs) > len(cp) else Str(())) if cs.endswith(cp) else NONE
        if m == "trim_end_matches" and cp:
            while cs.endswith(cp):
                cs = cs[:-len(cp)]
            return Str((cs,)) if cs else Str(())
    if cs is not None and (len(v) == 1 or cp is not None):
        st.note("approximate: " + m)
    if m in ("contains", "starts_with", "ends_with", "eq_ignore_ascii_case"):
        return T("pred", m, *v)
    if m in ("find", "strip_prefix", "strip_suffix"):
        return fork_opaque(I, st, m, tup(*v), OPT, T("strfn", m, *v))
    return T("strfn", m, *v)


@model("char::from_u32", "methods::from_u32", "convert::from_u32", "char::from_digit")
def m_from_u32(I, st, a, c):
    v = I.simp(st, L(I, st, a[0]))
    if is_int(v):
        return some(v) if v <= 0x10FFFF and not 0xD800 <= v <= 0xDFFF else NONE
    if isinstance(v, T) and v.op == "cast" and v.a[0] == "u32" and v.a[2:] == ("char",):
        return some(v.a[1])
    return fork_opaque(I, st, "char::from_u32", v, OPT, T("cast", "char", v, "u32"))


@model("char::is_ascii", "u8::is_ascii", "char::len_utf8", "char::is_alphanumeric", "char::is_ascii_alphanumeric")
def m_charfn(I, st, a, c):
    v = I.simp(st, L(I, st, a[0]))
    if is_int(v):
        x = chr(v) if 0 <= v < 0x110000 and not 0xD800 <= v < 0xE000 else None
        n = c.key.split("::")[1]
        if n == "is_ascii":
            return int(v < 128)
        if x is not None and n == "len_utf8":
            return len(x.encode())
        if x is not None and n == "is_ascii_alphanumeric":
            return int(v < 128 and x.isalnum())
        if x is not None and v < 128:
            return int(x.isalnum())
    return T("pred", c.key, v)


# ---- formatting ------------------------------------------------------------------------------------------------------
@model("Arguments::from_str", "Arguments::from_str_nonconst")
def m_args_str(I, st, a, c):
    return Agg("fmtargs", None, (L(I, st, a[0]),))


@model("Argument::new_display", "Argument::new_debug", "Argument::new_upper_hex", "Argument::new_lower_hex", "Argument::new_binary", "Argument::new_lower_exp")
def m_arg(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    k = c.key.rsplit("new_", 1)[1]
    t = c.argtys[0]["s"] if c.argtys else "?"
    t = t.replace("&", "").replace("mut ", "").strip()
    return Agg("fmtarg", k, (v, t))


@model("Arguments::new")
def m_args_new(I, st, a, c):
    tpl, args = L(I, st, a[0]), L(I, st, a[1])
    if not isinstance(tpl, Seq) or not isinstance(args, Seq):
        return Agg("fmtargs", None, (T("fmt", I.deep(st, tpl), I.deep(st, args)),))
    b = list(tpl.items)
    parts, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(bytes(b[i:i + x]).decode())
            i += x
        elif x == 0x80:
            ln = b[i] | b[i + 1] << 8
            parts.append(bytes(b[i + 2:i + 2 + ln]).decode())
            i += 2 + ln
        else:
            o = []
            if x != 0xC0:
                if x & 1:
                    o.append(("flags", tuple(b[i:i + 4])))
                    i += 4
                if x & 2:
                    o.append(("width", tuple(b[i:i + 2])))
                    i += 2
                if x & 4:
                    o.append(("prec", tuple(b[i:i + 2])))
                    i += 2
                if x & 8:
                    n = b[i] | b[i + 1] << 8
                    i += 2
            arg = args.items[n] if n < len(args.items) else T("noarg")
            n += 1
            parts.append(fmt_part(I, st, arg, tuple(o)))
    flat = []
    for p in parts:
        if isinstance(p, tuple):
            flat.extend(p)
        else:
            flat.append(p)
    return Agg("fmtargs", None, (Str(flat),))


def fmt_part(I, st, arg, opts):
    if not (isinstance(arg, Agg) and arg.tag == "fmtarg"):
        return T("fmtpart", I.deep(st, arg))
    v, t = arg.f
    if arg.var == "display" and not opts:
        if isinstance(v, Str):
            return v.parts
        if is_int(v):
            return chr(v) if t == "char" else ("true" if v else "false") if t == "bool" else str(v)
        if t in ("str", "alloc::string::String"):
            return v
        if isinstance(v, Agg):
            fn = I.impls.get(("core::fmt::Display", t, None, "fmt"))
        return T("display", v)
    return T("fmtpart", arg.var, v, opts, t)


@model("Formatter::debug_c_like_enum_write_str")
def m_debug_enum(I, st, a, c):
    names, i = I.deep(st, L(I, st, a[1])), I.simp(st, a[2])
    names = names.const() if isinstance(names, Str) else None
    if names is None or not is_int(i):
        return None
    st.ev("fmt", Str((names.encode()[i:].decode().split(" ")[0],)))
    return ok(UNIT)


@model("fmt::format")
def m_format(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, Agg) and v.tag == "fmtargs":
        s = v.f[0]
        if isinstance(s, Str) and len(s.parts) == 1 and not isinstance(s.parts[0], str):
            return s.parts[0] if not isinstance(s.parts[0], T) or s.parts[0].op not in ("fmtpart",) else s
        return s
    return T("format", I.deep(st, v))


@model("stdio::_print", "stdio::_eprint", "Formatter::write_str", "Write::write_str", "Formatter::write_char", "Write::write_char", "Write::write_fmt", "Formatter::write_fmt")
def m_print(I, st, a, c):
    if c.key.startswith("stdio"):
        st.ev("print", I.deep(st, a[0]))
        return UNIT
    st.ev("fmt", I.deep(st, a[1]) if len(a) > 1 else None)
    return ok(UNIT)


# ---- iterators -------------------------------------------------------------------------------------------------------
END = object()


def it_seq(v, mode="val"):
    return Agg("iter", "seq", (v, 0, len(v.items) if isinstance(v, Seq) else 0))


def to_iter(I, st, v, c=None):
    """an iterator value for anything iterable"""
    raw = v
    v = L(I, st, v)
    if isinstance(v, Agg) and v.tag == "iter":
        return v
    if isinstance(v, Seq):
        if isinstance(raw, Ref):
            return Agg("iter", "mutseq", (raw, 0))
        return it_seq(v)
    if isinstance(v, MapV):
        return Agg("iter", "map_entries", (v, raw if isinstance(raw, Ref) else None, 0))
    if isinstance(v, Agg) and v.tag == OPT:
        return it_seq(Seq(v.f if v.var == 1 else ()))
    if isinstance(v, Agg) and v.tag.startswith("core::ops::range::"):
        k = v.tag.rsplit("::", 1)[1]
        if k == "Range":
            return Agg("iter", "range", (v.f[0], v.f[1]))
        if k == "RangeInclusive":
            hi = v.f[1]
            return Agg("iter", "range", (v.f[0], hi + 1 if is_int(hi) else T("Add", hi, 1, "usize")))
        if k == "RangeFrom":
            return Agg("iter", "range", (v.f[0], None))
    if isinstance(v, Agg) and c is not None:
        #an iterator written in the repository
        fn = I.impls.get(("core::iter::traits::iterator::Iterator", v.tag, None, "next"))
        if fn:
            return Agg("iter", "user", (v, fn.path))
    return Agg("iter", "opaque", (v, 0))


def it_next(I, st, it, c):
    """[(state, new iterator, item or END)]; stopped paths give (state, None, Stop)"""
    k = it.var
    f = it.f
    if k == "seq":
        s, i, j = f
        if not isinstance(s, Seq):
            return it_next(I, st, Agg("iter", "opaque", (s, i)), c)
        if i >= j:
            return [(st, it, END)]
        x = s.items[i]
        if isinstance(x, Chunk) and x.kind == "raw":
            #bytes of which not even the number is known
            out = []
            who, n = x.x.a
            who = who if isinstance(who, tuple) and who[0] == "+" else ("+", who, 0)
            for s2, b in I.decide(st, I.binop(st, None, "Gt", n, 0, "usize")):
                if not b:
                    out.extend(it_next(I, s2, Agg("iter", k, (s, i + 1, j)), c))
                elif who[2] >= 2 * I.opaque_max:
                    s2.x["truncated"] = True
                else:
                    e = T("sym", ("rawbyte",) + who[1:], "u8")
                    left = n - 1 if is_int(n) else I.binop(s2, None, "Sub", n, 1, "usize")
                    items = Seq(list(s.items[:i]) + [e, Chunk("raw", T("raw", (who[0], who[1], who[2] + 1), left))] + list(s.items[i + 1:]))
                    out.append((s2, Agg("iter", k, (items, i + 1, j + 1)), e))
            return out
        return [(st, Agg("iter", k, (s, i + 1, j)), x)]
    if k == "mutseq":
        r, i = f
        s = L(I, st, r)
        if not isinstance(s, Seq):
            return it_next(I, st, Agg("iter", "opaque", (s, i)), c)
        if i >= len(s.items):
            return [(st, it, END)]
        return [(st, Agg("iter", k, (r, i + 1)), Ref(r.cell, r.proj + (("i", i),)))]
    if k == "range":
        lo, hi = f
        if hi is None:
            return [(st, Agg("iter", k, (lo + 1 if is_int(lo) else T("Add", lo, 1, "usize"), None)), lo)]
        out = []
        for s, b in I.decide(st, I.binop(st, None, "Lt", lo, hi, "usize")):
            if b and I.range_max is not None and is_int(lo) and lo >= I.range_max and not is_int(hi):
                I.long_loop(s, hi, c)
            elif b:
                n = lo + 1 if is_int(lo) else I.binop(s, None, "Add", lo, 1, "usize")
                out.append((s, Agg("iter", k, (n, hi)), lo))
            else:
                out.append((s, it, END))
        return out
    if k == "opaque":
        t, n = f
        out = []
        more = T("more", I.deep(st, t), n)
        for s, b in I.decide(st, more):
            if b:
                if n >= I.opaque_max:
                    s.x["truncated"] = True
                    continue
                el = T("el", I.deep(st, t), n)
                if isinstance(t, T) and t.op in ("chunks_exact", "windows", "rchunks_exact") and is_int(t.a[1]) and 0 < t.a[1] <= 64:
                    el = Seq([T("idx", el, j) for j in range(t.a[1])])
                out.append((s, Agg("iter", k, (t, n + 1)), el))
            else:
                out.append((s, it, END))
        return out
    if k == "map_entries":
        m, ref, n = f
        es = [(a, b) for a, b in map_final(m) if b is not ABSENT]
        if n < len(es):
            a, b = es[n]
            return [(st, Agg("iter", k, (m, ref, n + 1)), tup(a, b))]
        if m.base is None:
            return [(st, it, END)]
        q = n - len(es)
        out = []
        for s, b in I.decide(st, T("more", T("entries", m.base), q)):
            if b:
                if q >= I.opaque_max:
                    s.x["truncated"] = True
                    continue
                key = T("key", m.base, q)
                I.assume(s, T("has", m.base, key), 1)
                out.append((s, Agg("iter", k, (m, ref, n + 1)), tup(key, T("get", m.base, key))))
            else:
                out.append((s, it, END))
        return out
    if k == "enumerate":
        return [(s, Agg("iter", k, (i, f[1] + (x is not END))), x if x is END or isinstance(x, Stop) else tup(f[1], x))
                for s, i, x in it_next(I, st, f[0], c)]
    if k == "take":
        inner, n = f
        if is_int(n):
            if n <= 0:
                return [(st, it, END)]
            return [(s, Agg("iter", k, (i, n - 1)), x) for s, i, x in it_next(I, st, inner, c)]
        out = []
        for s, b in I.decide(st, I.binop(st, None, "Gt", n, 0, "usize")):
            if not b:
                out.append((s, it, END))
            elif I.range_max is not None and I.linear(n).get(1, 0) <= -I.range_max:
                I.long_loop(s, n, c)
            else:
                out.extend((s2, Agg("iter", k, (i, I.binop(s2, None, "Sub", n, 1, "usize"))), x) for s2, i, x in it_next(I, s, inner, c))
        return out
    if k == "skip":
        inner, n = f
        if is_int(n):
            cur = [(st, inner)]
            for _ in range(n):
                nx = []
                for s, i in cur:
                    nx.extend((s2, i2) for s2, i2, x in it_next(I, s, i, c))
                cur = nx
            out = []
            for s, i in cur:
                out.extend((s2, Agg("iter", "skip", (i2, 0)), x) for s2, i2, x in it_next(I, s, i, c))
            return out
        st.note("skip by unknown count")
        return [(s, Agg("iter", "skip", (i, 0)), x) for s, i, x in it_next(I, st, inner, c)]
    if k == "repeat":
        return [(st, it, f[0])]
    if k == "repeat_with":
        return [(s, it, x) for s, x in I.call_value(st, f[0], [], c.frame, c.span)]
    if k in ("map", "inspect"):
        out = []
        for s, i, x in it_next(I, st, f[0], c):
            n = Agg("iter", k, (i, f[1]))
            if x is END or isinstance(x, Stop):
                out.append((s, n, x))
            else:
                for s2, y in I.call_value(s, f[1], [x], c.frame, c.span):
                    out.append((s2, n, x if k == "inspect" and not isinstance(y, Stop) else y))
        return out
    if k in ("filter", "filter_map", "take_while", "map_while", "skip_while"):
        out = []
        work = [(st, f[0])]
        rounds = 0
        while work:
            rounds += 1
            if rounds > 3000:
                break
            s0, i0 = work.pop()
            for s, i, x in it_next(I, s0, i0, c):
                n = Agg("iter", k, (i, f[1]))
                if x is END or isinstance(x, Stop):
                    out.append((s, n, x))
                    continue
                for s2, y in I.call_value(s, f[1], [x], c.frame, c.span):
                    if isinstance(y, Stop):
                        out.append((s2, n, y))
                    elif k in ("filter", "take_while", "skip_while"):
                        for s3, b in I.decide(s2, y):
                            if k == "skip_while":
                                if b:
                                    work.append((s3, i))
                                else:
                                    out.append((s3, i, x))
                            elif b:
                                out.append((s3, n, x))
                            elif k == "filter":
                                work.append((s3, i))
                            else:
                                out.append((s3, it_seq(Seq()), END))
                    else:
                        for s3, kk, p in opt_split(I, s2, y):
                            if kk == 1:
                                out.append((s3, n, p))
                            elif k == "filter_map":
                                work.append((s3, i))
                            else:
                                out.append((s3, it_seq(Seq()), END))
        return out
    if k == "flat_map":
        inner, fn, cur = f
        out = []
        work = [(st, inner, cur)]
        rounds = 0
        while work:
            rounds += 1
            if rounds > 3000:
                break
            s0, i0, cur0 = work.pop()
            if cur0 is not None:
                for s, i, x in it_next(I, s0, cur0, c):
                    if x is END:
                        work.append((s, i0, None))
                    else:
                        out.append((s, Agg("iter", k, (i0, fn, i)), x))
                continue
            for s, i, x in it_next(I, s0, i0, c):
                if x is END or isinstance(x, Stop):
                    out.append((s, Agg("iter", k, (i, fn, None)), x))
                elif fn is None:
                    work.append((s, i, to_iter(I, s, x, c)))
                else:
                    for s2, y in I.call_value(s, fn, [x], c.frame, c.span):
                        if isinstance(y, Stop):
                            out.append((s2, it, y))
                        else:
                            work.append((s2, i, to_iter(I, s2, y, c)))
        return out
    if k == "chain":
        out = []
        for s, i, x in it_next(I, st, f[0], c) if f[0] is not None else [(st, None, END)]:
            if x is END:
                out.extend((s2, Agg("iter", k, (None, j)), y) for s2, j, y in it_next(I, s, f[1], c))
            else:
                out.append((s, Agg("iter", k, (i, f[1])), x))
        return out
    if k == "zip":
        out = []
        for s, i, x in it_next(I, st, f[0], c):
            if x is END or isinstance(x, Stop):
                out.append((s, Agg("iter", k, (i, f[1])), x))
                continue
            for s2, j, y in it_next(I, s, f[1], c):
                out.append((s2, Agg("iter", k, (i, j)), y if y is END or isinstance(y, Stop) else tup(x, y)))
        return out
    if k == "tuples":
        n = f[1]
        cur = [(st, f[0], [])]
        out = []
        for _ in range(n):
            nx = []
            for s, i, xs in cur:
                for s2, i2, x in it_next(I, s, i, c):
                    if x is END or isinstance(x, Stop):
                        if xs and x is END:
                            s2.ev("dropped-rest", tuple(I.deep(s2, y) for y in xs), c.frame.fn.path, c.span)
                        out.append((s2, Agg("iter", k, (i2, n)), x))
                    else:
                        nx.append((s2, i2, xs + [x]))
            cur = nx
        out.extend((s, Agg("iter", k, (i, n)), tup(*xs)) for s, i, xs in cur)
        return out
    if k == "step":
        inner, n = f
        out = []
        for s, i, x in it_next(I, st, inner, c):
            if x is END or not is_int(n):
                out.append((s, Agg("iter", k, (i, n)), x))
                continue
            cur = [(s, i)]
            for _ in range(n - 1):
                cur = [(s2, i2) for s1, i1 in cur for s2, i2, _x in it_next(I, s1, i1, c)]
            out.extend((s2, Agg("iter", k, (i2, n)), x) for s2, i2 in cur)
        return out
    if k == "peekable":
        inner, pk = f
        if pk is not None:
            return [(st, Agg("iter", k, (inner, None)), END if pk is END_V else pk)]
        return [(s, Agg("iter", k, (i, None)), x) for s, i, x in it_next(I, st, inner, c)]
    if k == "user":
        v, path = f
        cell = I.cell(st, v)
        out = []
        for s, r in I.run(I.P.fns[path], [Ref(cell)], st, {}, c.frame.depth + 1):
            if isinstance(r, Stop):
                out.append((s, None, r))
                continue
            for s2, kk, p in opt_split(I, s, r):
                out.append((s2, Agg("iter", k, (s2.cells[cell], path)), p if kk == 1 else END))
        return out
    if k == "rev":
        inner = f[0]
        if inner.var == "seq" and isinstance(inner.f[0], Seq):
            s, i, j = inner.f
            if i >= j:
                return [(st, it, END)]
            return [(st, Agg("iter", k, (Agg("iter", "seq", (s, i, j - 1)),)), s.items[j - 1])]
        if inner.var == "range" and all(is_int(x) for x in inner.f):
            lo, hi = inner.f
            if lo >= hi:
                return [(st, it, END)]
            return [(st, Agg("iter", k, (Agg("iter", "range", (lo, hi - 1)),)), hi - 1)]
        if inner.var in ("map", "enumerate", "mutseq"):
            items = [x for x in drain(I, st, inner, c)]
            if len(items) == 1 and not isinstance(items[0][1], Stop):
                s2, xs = items[0]
                return it_next(I, s2, it_seq(Seq(reversed(xs))), c)
        return it_next(I, st, Agg("iter", "opaque", (T("rev", I.deep(st, inner)), 0)), c)
    return it_next(I, st, Agg("iter", "opaque", (it, 0)), c)


END_V = Agg("end", None, ())


def map_final(m):
    d = {}
    for k, v in m.over:
        d[k] = v
    return list(d.items())


def drain(I, st, it, c, limit=5000):
    """[(state, [items])] after running an iterator to its end"""
    if it.var == "seq" and isinstance(it.f[0], Seq) and is_int(it.f[1]) and is_int(it.f[2]):
        xs = list(it.f[0].items[it.f[1]:it.f[2]])
        if not any(isinstance(x, Chunk) for x in xs):
            return [(st, xs)]
    out = []
    limit = max(limit, I.max_visits)
    work = [(st, it, [])]
    while work:
        s, i, xs = work.pop()
        if len(xs) > limit:
            out.append((s, Stop("cut", "iterator bound")))
            continue
        for s2, i2, x in it_next(I, s, i, c):
            if x is END:
                out.append((s2, xs))
            elif isinstance(x, Stop):
                out.append((s2, x))
            else:
                work.append((s2, i2, xs + [x]))
    return out


@model("IntoIterator::into_iter", "[T]::iter", "Vec::iter", "HashMap::iter", "HashMap::into_iter", "[T]::iter_mut", "Vec::iter_mut", "HashMap::iter_mut",
       "VecDeque::iter", "Option::iter", "Option::into_iter", "[T; N]::iter", "Map::iter", "IndexMap::iter", "Map::into_iter")
def m_iter(I, st, a, c):
    v = a[0]
    if c.key in ("[T]::iter", "Vec::iter", "HashMap::iter"):
        v = L(I, st, v)
    if isinstance(v, Ref) and c.argtys and not c.argtys[0]["s"].startswith("&mut") and c.key != "[T]::iter_mut":
        v = L(I, st, v)
    if isinstance(v, T) and v.op == "opaque_iter":
        return Agg("iter", "opaque", (v, 0))
    return to_iter(I, st, v, c)


@model("HashMap::keys", "HashMap::values", "HashMap::into_keys", "HashMap::into_values", "Map::keys", "Map::values", "HashMap::values_mut")
def m_keys(I, st, a, c):
    it = to_iter(I, st, L(I, st, a[0]), c)
    return Agg("iter", "proj", (it, 0 if "keys" in c.key else 1))


_old_next = it_next


def it_next(I, st, it, c):  # noqa: F811
    if it.var == "proj":
        out = []
        for s, i, x in it_next(I, st, it.f[0], c):
            if not (x is END or isinstance(x, Stop)):
                x = x.f[it.f[1]] if isinstance(x, Agg) and len(x.f) == 2 else T("fld", x, None, it.f[1])
            out.append((s, Agg("iter", "proj", (i, it.f[1])), x))
        return out
    return _old_next(I, st, it, c)


@model("Iterator::next", "DoubleEndedIterator::next_back", "IntoIter::next", "Iter::next")
def m_next(I, st, a, c):
    it = L(I, st, a[0])
    if c.key.endswith("next_back") and isinstance(it, Agg) and it.tag == "iter":
        if it.var == "seq" and isinstance(it.f[0], Seq):
            s, i, j = it.f
            if i >= j:
                return NONE
            I.store(st, a[0], Agg("iter", "seq", (s, i, j - 1)))
            return some(s.items[j - 1])
        return None
    it = to_iter(I, st, it, c)
    out = []
    for s, i, x in it_next(I, st, it, c):
        if isinstance(x, Stop):
            out.append((s, x))
            continue
        if isinstance(a[0], Ref):
            I.store(s, a[0], i)
        if isinstance(x, Chunk):
            s.note("iterates over a stretch of bytes")
            x = T("chunkitem", x)
        out.append((s, NONE if x is END else some(x)))
    return out


@model("Iterator::copied", "Iterator::cloned", "Iterator::fuse")
def m_copied(I, st, a, c):
    return to_iter(I, st, a[0], c)


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::inspect", "Iterator::take_while", "Iterator::map_while", "Iterator::skip_while")
def m_itmap(I, st, a, c):
    return Agg("iter", c.key.split("::")[1], (to_iter(I, st, a[0], c), a[1]))


@model("Iterator::flat_map", "Iterator::flatten")
def m_flat(I, st, a, c):
    return Agg("iter", "flat_map", (to_iter(I, st, a[0], c), a[1] if len(a) > 1 else None, None))


@model("Iterator::enumerate")
def m_enum(I, st, a, c):
    return Agg("iter", "enumerate", (to_iter(I, st, a[0], c), 0))


@model("Iterator::take", "Iterator::skip", "Iterator::step_by")
def m_taken(I, st, a, c):
    if c.key == "Iterator::take":
        it = to_iter(I, st, a[0], c)
        b = it.f[0] if it.var == "opaque" else None
        while isinstance(b, Ref):
            b = L(I, st, b)
        if isinstance(b, Agg) and b.tag == "readbuf" and I.simp(st, a[1]) == b.f[1]:
            return it_seq(Seq([Chunk("blob", b.f[0])]))     #the part a read has just filled
    return Agg("iter", {"take": "take", "skip": "skip", "step_by": "step"}[c.key.split("::")[1]], (to_iter(I, st, a[0], c), I.simp(st, a[1])))


@model("Iterator::rev")
def m_rev(I, st, a, c):
    return Agg("iter", "rev", (to_iter(I, st, a[0], c),))


@model("Iterator::peekable")
def m_peekable(I, st, a, c):
    return Agg("iter", "peekable", (to_iter(I, st, a[0], c), None))


@model("Iterator::chain", "Iterator::zip", "iter::zip")
def m_chain(I, st, a, c):
    return Agg("iter", c.key.split("::")[1], (to_iter(I, st, a[0], c), to_iter(I, st, a[1], c)))


@model("RangeInclusive::new")
def m_range_inclusive(I, st, a, c):
    return Agg("core::ops::range::RangeInclusive", 0, [a[0], a[1], 0])


@model("Itertools::dedup", "slice::dedup")
def m_dedup(I, st, a, c):
    """elements that equal the one before them are left out"""
    out = []
    for s, xs in drain(I, st, to_iter(I, st, a[0], c), c):
        if isinstance(xs, Stop):
            out.append((s, xs))
            continue
        if any(isinstance(x, Chunk) for x in xs):
            return None
        ways = [(s, [])]
        for x in xs:
            nxt = []
            for s2, l in ways:
                if not l:
                    nxt.append((s2, [x]))
                    continue
                for s3, b in I.decide(s2, I.equal(s2, I.deep(s2, L(I, s2, l[-1])), I.deep(s2, L(I, s2, x)))):
                    nxt.append((s3, l if b else l + [x]))
            ways = nxt
        out.extend((s2, it_seq(Seq(l))) for s2, l in ways)
    return out


@model("Itertools::tuples")
def m_tuples(I, st, a, c):
    n = 2
    t = I.type_arg(c, 1)
    if t.get("k") == "tuple":
        n = len(t["a"])
    return Agg("iter", "tuples", (to_iter(I, st, a[0], c), n))


@model("Itertools::all_equal")
def m_alleq(I, st, a, c):
    out = []
    for s, xs in drain(I, st, to_iter(I, st, a[0], c), c):
        if isinstance(xs, Stop):
            out.append((s, xs))
        elif len(xs) < 2:
            out.append((s, 1))
        else:
            rs = [I.equal(s, I.deep(s, xs[0]), I.deep(s, x)) for x in xs[1:]]
            out.append((s, 0 if False in rs else 1 if None not in rs else T("all_equal", *[I.deep(s, x) for x in xs])))
    return out


@model("iter::once", "iter::empty", "iter::repeat", "iter::repeat_n", "repeat_n::repeat_n", "once::once", "empty::empty", "repeat::repeat", "iter::repeat_with", "repeat_with::repeat_with")
def m_once(I, st, a, c):
    n = c.key.split("::")[1]
    if n == "once":
        return it_seq(Seq([a[0]]))
    if n == "empty":
        return it_seq(Seq())
    if n == "repeat_n" and is_int(a[1]):
        return it_seq(Seq([a[0]] * a[1]))
    if n == "repeat_with":
        return Agg("iter", "repeat_with", (a[0],))
    rep = Agg("iter", "repeat", (a[0],))
    return rep if n == "repeat" else Agg("iter", "take", (rep, I.simp(st, a[1])))


@model("Iterator::fold", "Iterator::for_each", "Iterator::try_for_each", "Iterator::try_fold", "Iterator::all", "Iterator::any", "Iterator::find", "Iterator::position",
       "Iterator::find_map", "Iterator::reduce", "Iterator::rposition")
def m_fold(I, st, a, c):
    n = c.key.split("::")[1]
    it = to_iter(I, st, a[0], c)
    if n == "reduce":
        out = []
        for s, i, x in it_next(I, st, it, c):
            if x is END:
                out.append((s, NONE))
            elif isinstance(x, (Stop, Chunk)):
                out.append((s, x if isinstance(x, Stop) else Stop("cut", "stretch")))
            else:
                fold = lambda s, v: v if isinstance(v, Stop) else some(v)
                out += each(m_fold_run(I, s, i, x, a[1], a, c, "fold"), fold)
        return out
    if n == "rposition":
        xs, s, i = [], st, it
        while len(xs) <= 300:
            r = it_next(I, s, i, c)
            if len(r) != 1 or isinstance(r[0][2], (Stop, Chunk)):
                return None
            s, i, x = r[0]
            if x is END:
                rev = it_seq(Seq(xs[::-1]))
                return each(m_fold_run(I, s, rev, UNIT, a[1], [rev], c, "position"),
                            lambda s, o: some(len(xs) - 1 - o.f[0]) if isinstance(o, Agg) and o.tag == OPT and o.var == 1 else o)
            xs.append(x)
        return None
    return m_fold_run(I, st, it, a[1] if n in ("fold", "try_fold") else UNIT, a[2] if n in ("fold", "try_fold") else a[1], a, c, n)


def m_fold_run(I, st, it, init, fn, a, c, n):
    out = []
    work = [(st, it, init, 0)]
    while work:
        s, i, acc, k = work.pop()
        if k > max(3000, I.max_visits):
            out.append((s, Stop("cut", "iterator bound")))
            continue
        for s2, i2, x in it_next(I, s, i, c):
            if isinstance(a[0], Ref):
                I.store(s2, a[0], i2)
            if isinstance(x, Stop):
                out.append((s2, x))
            elif x is END:
                r = {"fold": acc, "for_each": UNIT, "all": 1, "any": 0, "find": NONE, "position": NONE, "find_map": NONE}.get(n)
                if n in ("try_for_each", "try_fold"):
                    r = ok(acc) if "Result" in c.dest_ty.get("s", "") else some(acc)
                out.append((s2, r))
            else:
                if isinstance(x, Chunk):
                    s2.note("iterates over a stretch of bytes")
                for s3, y in I.call_value(s2, fn, [acc, x] if n in ("fold", "try_fold") else [x], c.frame, c.span):
                    if isinstance(y, Stop):
                        out.append((s3, y))
                    elif n == "fold":
                        work.append((s3, i2, y, k + 1))
                    elif n == "for_each":
                        work.append((s3, i2, UNIT, k + 1))
                    elif n in ("try_for_each", "try_fold"):
                        good = 0 if "Result" in c.dest_ty.get("s", "") else 1
                        for s4, kk, p in opt_split(I, s3, y):
                            if kk == good:
                                work.append((s4, i2, p, k + 1))
                            else:
                                out.append((s4, err(p) if good == 0 else NONE))
                    elif n == "find_map":
                        for s4, kk, p in opt_split(I, s3, y):
                            if kk == 1:
                                out.append((s4, some(p)))
                            else:
                                work.append((s4, i2, acc, k + 1))
                    else:
                        for s4, b in I.decide(s3, y):
                            if n == "all" and not b:
                                out.append((s4, 0))
                            elif n == "any" and b:
                                out.append((s4, 1))
                            elif n == "find" and b:
                                out.append((s4, some(x)))
                            elif n == "position" and b:
                                out.append((s4, some(k)))
                            else:
                                work.append((s4, i2, acc, k + 1))
    return out


def choose_by(I, st, xs, fn, n, c):
    work, out = [(st, xs[0], 1)], []
    while work:
        s, best, k = work.pop()
        if k == len(xs):
            out.append((s, some(best)))
            continue
        for s2, o in I.call_value(s, fn, [Ref(I.cell(s, best), ()), Ref(I.cell(s, xs[k]), ())], c.frame, c.span):
            if isinstance(o, Stop):
                out.append((s2, o))
            elif isinstance(o, Agg) and o.tag == ORD:
                other = o.var == 2 if n == "min_by" else o.var != 2
                work.append((s2, xs[k] if other else best, k + 1))
            else:
                out.append((s2, Stop("cut", f"order not known: {o}")))
    return out


@model("Iterator::count", "Iterator::last", "Iterator::sum", "Iterator::nth", "Iterator::max", "Iterator::min", "Iterator::min_by_key", "Iterator::max_by_key",
       "Iterator::min_by", "Iterator::max_by")
def m_reduce(I, st, a, c):
    n = c.key.split("::")[1]
    if n == "nth":
        it = to_iter(I, st, a[0], c)
        k = a[1]
        if not is_int(k):
            return None
        cur = [(st, it)]
        for _ in range(k):
            cur = [(s2, i2) for s, i in cur for s2, i2, _x in it_next(I, s, i, c)]
        out = []
        for s, i in cur:
            for s2, i2, x in it_next(I, s, i, c):
                if isinstance(a[0], Ref):
                    I.store(s2, a[0], i2)
                out.append((s2, NONE if x is END else some(x)))
        return out
    out = []
    for s, xs in drain(I, st, to_iter(I, st, a[0], c), c):
        if isinstance(xs, Stop):
            out.append((s, xs))
        elif n == "count":
            out.append((s, I.seq_len(s, Seq(xs))))
        elif n == "last":
            out.append((s, some(xs[-1]) if xs else NONE))
        elif n == "sum":
            acc = 0
            for x in xs:
                acc = I.binop(s, None, "Add", acc, L(I, s, x), c.dest_ty.get("s", "usize"))
            out.append((s, acc))
        elif n in ("min_by_key", "max_by_key", "min", "max", "min_by", "max_by"):
            if not xs:
                out.append((s, NONE))
                continue
            keys = []
            s0 = s
            if n.endswith("_key"):
                good = True
                for x in xs:
                    r = I.call_value(s0, a[1], [x], c.frame, c.span)
                    if len(r) != 1 or isinstance(r[0][1], Stop):
                        good = False
                        break
                    s0, kx = r[0]
                    keys.append(I.deep(s0, kx))
                if not good:
                    return None
            else:
                keys = [I.deep(s0, x) for x in xs]
            if n in ("min_by", "max_by"):
                out += choose_by(I, s0, xs, a[1], n, c)
            elif all(is_int(k) for k in keys):
                b = 0
                for q in range(1, len(keys)):
                    if keys[q] < keys[b] if n.startswith("min") else keys[q] >= keys[b]:
                        b = q
                out.append((s0, some(xs[b])))
            else:
                s0.ev("choose", n, tuple(I.deep(s0, x) for x in xs), tuple(keys), c.span)
                #any of them can be the one
                ch = T("choice", n, *keys)
                for q in range(len(xs)):
                    s2 = s0.copy()
                    if I.assume(s2, ch, q):
                        out.append((s2, some(xs[q])))
    return out


def collect_into(I, st, xs, ty, c):
    """[(state, value)]"""
    s = ty.get("s", "?")
    T_ = c.frame.fn.types
    if s.startswith("alloc::vec::Vec<") or s.startswith("alloc::boxed::Box<[") or s.startswith("alloc::collections::vec_deque"):
        return [(st, Seq(xs))]
    if s.startswith("core::result::Result<") or s.startswith("core::option::Option<"):
        isr = s.startswith("core::result")
        good = 0 if isr else 1
        inner = T_[ty["a"][0]] if ty.get("a") else {"s": "?"}
        cur = [(st, [])]
        out = []
        for x in xs:
            nx = []
            for s1, acc in cur:
                for s2, k, p in opt_split(I, s1, x):
                    if k == good:
                        nx.append((s2, acc + [p]))
                    else:
                        out.append((s2, err(p) if isr else NONE))
            cur = nx
        for s1, acc in cur:
            out.extend(each(collect_into(I, s1, acc, inner, c), lambda s2, v: ok(v) if isr else some(v)))
        return out
    if "HashMap<" in s or s.startswith("serde_json::map::Map") or "BTreeMap<" in s:
        es = []
        for x in xs:
            x = L(I, st, x)
            if isinstance(x, Agg) and len(x.f) == 2:
                es.append((x.f[0], x.f[1]))
            else:
                es.append((T("fld", x, None, 0), T("fld", x, None, 1)))
        return [(st, MapV(None, es))]
    if s == "alloc::string::String":
        parts = []
        for x in xs:
            x = L(I, st, x)
            if is_int(x):
                parts.append(chr(x))
            else:
                parts.extend(to_str_parts(x) if not isinstance(x, T) or True else (x,))
        return [(st, Str(parts))]
    fns = {k[2]: f for k, f in I.impls.items() if k[0] == "core::iter::traits::collect::FromIterator" and k[1] == s and k[2] is not None and k[3] == "from_iter"}
    if len(fns) > 1 and xs:
        #which of several implementations is meant shows in the elements
        x = L(I, st, xs[0])

        def fits(ta):
            t = ta[0].split("<")[0].lstrip("&") if ta else "?"
            if isinstance(x, Agg):
                return x.tag == t
            if t in WIDTH or t == "bool":
                return is_int(x) or isinstance(x, T)
            return isinstance(x, T)
        good = [f for ta, f in fns.items() if fits(ta)]
        fns = {0: good[0]} if len(good) == 1 else fns if isinstance(x, T) else {}
    fn = next(iter(fns.values()), None)
    if fn:
        return I.run(fn, [it_seq(Seq(xs))], st, {}, c.frame.depth + 1)
    return [(st, T("collect", s, Seq([I.deep(st, x) if not isinstance(x, Chunk) else x for x in xs])))]


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I, st, a, c):
    out = []
    for s, xs in drain(I, st, to_iter(I, st, a[0], c), c):
        if isinstance(xs, Stop):
            out.append((s, xs))
        else:
            out.extend(collect_into(I, s, xs, c.dest_ty, c))
    return out


# ---- vectors and slices ----------------------------------------------------------------------------------------------
@model("Vec::new", "VecDeque::new", "Vec::with_capacity", "VecDeque::with_capacity", "Vec::from_raw")
def m_vec_new(I, st, a, c):
    if a:
        alloc(I, st, I.simp(st, a[0]), c)
    return Seq()


@model("Box::new_uninit", "boxed::box_new", "Box::new_uninit_slice")
def m_newuninit(I, st, a, c):
    return Agg("boxuninit", None, (UNINIT,))


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "boxed::box_uninit_array_into_vec_unsafe")
def m_box_into_vec(I, st, a, c):
    v = L(I, st, a[0])
    for _ in range(4):
        if isinstance(v, Agg) and v.tag != "iter" and len(v.f) == 1:
            v = v.f[0]
        elif isinstance(v, Agg) and v.tag == "?" and v.f:
            v = v.f[-1]
    return v


@model("Vec::push", "VecDeque::push_back", "Vec::push_within_capacity")
def m_push(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, Seq):
        I.store(st, a[0], Seq(v.items + (a[1],)))
    else:
        I.store(st, a[0], T("pushed", I.deep(st, v), I.deep(st, a[1])))
    return UNIT


@model("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back", "Vec::swap_remove", "Vec::remove")
def m_pop(I, st, a, c):
    v = L(I, st, a[0])
    n = c.key.split("::")[1]
    if isinstance(v, Seq):
        if n in ("swap_remove", "remove"):
            i = I.simp(st, a[1])
            if is_int(i) and not v.chunks():
                if not 0 <= i < len(v.items):
                    return [(st, Stop("panic", (c.key, c.frame.fn.path, c.span)))]
                it = list(v.items)
                x = it[i]
                if n == "remove":
                    del it[i]
                else:
                    it[i] = it[-1]
                    it.pop()
                I.store(st, a[0], Seq(it))
                return x
        else:
            if not v.items:
                return NONE
            i = 0 if n == "pop_front" else -1
            x = v.items[i]
            if not isinstance(x, Chunk):
                I.store(st, a[0], Seq(v.items[1:] if i == 0 else v.items[:-1]))
                return some(x)
    if isinstance(v, T) and v.op == "pushed" and n in ("pop", "pop_back"):
        I.store(st, a[0], v.a[0])
        return some(v.a[1])
    v = I.deep(st, v)
    if n in ("swap_remove", "remove"):
        st.ev("maypanic", c.key, c.frame.fn.path, c.span, (I.seq_len(st, v), I.simp(st, a[1])))
        I.store(st, a[0], T("removed", v, I.simp(st, a[1])))
        return T("idx", v, I.simp(st, a[1]))
    out = []
    for s, b in I.decide(st, T("Eq", T("len", v), 0)):
        if b:
            out.append((s, NONE))
        else:
            I.store(s, a[0], T("popped", v))
            out.append((s, some(T("last", v))))
    return out


@model("Vec::insert", "VecDeque::push_front")
def m_vinsert(I, st, a, c):
    v = L(I, st, a[0])
    if c.key.startswith("VecDeque"):
        i, x = 0, a[1]
    else:
        i, x = I.simp(st, a[1]), a[2]
    if isinstance(v, Seq) and is_int(i) and (i == 0 or not v.chunks()):
        if i > len(v.items):
            return [(st, Stop("panic", (c.key, c.frame.fn.path, c.span)))]
        I.store(st, a[0], Seq(v.items[:i] + (x,) + v.items[i:]))
    else:
        I.store(st, a[0], T("inserted", I.deep(st, v), i, I.deep(st, x)))
    return UNIT


@model("Vec::extend_from_slice", "Extend::extend", "Vec::append", "VecDeque::extend", "Vec::extend_from_within")
def m_extend(I, st, a, c):
    n = c.key.split("::")[1]
    v = L(I, st, a[0])
    src = L(I, st, a[1])
    if n == "append":
        I.store(st, a[1], Seq())
    if isinstance(v, MapV):
        out = []
        for s, xs in drain(I, st, to_iter(I, st, src, c), c):
            if isinstance(xs, Stop):
                out.append((s, xs))
                continue
            m = L(I, s, a[0])
            for x in xs:
                x = L(I, s, x)
                s.ev("mapset", m.base, x.f[0], c.frame.fn.path)
                m = MapV(m.base, m.over + ((x.f[0], x.f[1]),))
            I.store(s, a[0], m)
            out.append((s, UNIT))
        return out
    if isinstance(v, Str):
        outs = []
        for s, xs in drain(I, st, to_iter(I, st, src, c), c):
            if isinstance(xs, Stop):
                outs.append((s, xs))
                continue
            parts = list(v.parts)
            for x in xs:
                x = L(I, s, x)
                parts.extend((chr(x),) if is_int(x) else to_str_parts(x))
            I.store(s, a[0], Str(parts))
            outs.append((s, UNIT))
        return outs
    if not isinstance(v, Seq):
        v = Seq([Chunk("blob", I.deep(st, v))])
    if isinstance(src, (T,)) and not (isinstance(src, Agg)):
        I.store(st, a[0], Seq(v.items + (Chunk("blob", src),)))
        return UNIT
    if isinstance(src, Str):
        src = str_bytes(src)
    it = to_iter(I, st, src, c)
    if it.var == "opaque":
        I.store(st, a[0], Seq(v.items + (Chunk("blob", I.deep(st, it.f[0])),)))
        return UNIT
    if it.var == "seq" and isinstance(it.f[0], Seq) and any(isinstance(x, Chunk) and x.kind == "raw" for x in it.f[0].items[it.f[1]:it.f[2]]):
        I.store(st, a[0], Seq(v.items + it.f[0].items[it.f[1]:it.f[2]]))
        return UNIT
    out = []
    for s, xs in drain(I, st, it, c):
        if isinstance(xs, Stop):
            out.append((s, xs))
            continue
        I.store(s, a[0], Seq(v.items + tuple(xs)))
        out.append((s, UNIT))
    return out


@model("Vec::reserve", "Vec::reserve_exact", "Vec::try_reserve", "Vec::try_reserve_exact", "String::reserve", "HashMap::reserve", "Vec::shrink_to_fit")
def m_reserve(I, st, a, c):
    if len(a) > 1:
        alloc(I, st, I.simp(st, a[1]), c)
    if "try_" in c.key:
        if getattr(I, "roomy", False):
            hi = I.bounds(st, I.simp(st, a[1]))[1]
            if hi is not None and hi < 1 << 48:
                return ok(UNIT)
        out = fork_opaque(I, st, c.key, I.simp(st, a[1]), RES, UNIT)
        return [(s, v) for s, v in out if v.var == 1 or I.assume_cmp(s, "Lt", I.simp(s, a[1]), 1 << 63)]
    return UNIT


@model("Vec::resize", "vec::from_elem", "[T]::repeat", "Vec::resize_with")
def m_resize(I, st, a, c):
    if c.key == "vec::from_elem":
        n, x, base = I.simp(st, a[1]), a[0], Seq()
    elif c.key == "[T]::repeat":
        v = L(I, st, a[0])
        n = I.simp(st, a[1])
        alloc(I, st, n, c)
        if isinstance(v, Seq) and is_int(n) and n * len(v.items) < 10000:
            return Seq(v.items * n)
        return Seq([Chunk("rep", (I.deep(st, v), n))])
    else:
        base, n, x = L(I, st, a[0]), I.simp(st, a[1]), a[2]
    alloc(I, st, n, c)
    if is_int(n) and isinstance(base, Seq) and not base.chunks() and n < 10000 and c.key != "Vec::resize_with":
        r = Seq(base.items[:n] + (x,) * (n - len(base.items)))
    elif isinstance(base, Seq):
        ln = I.seq_len(st, base)
        d = I.binop(st, None, "Sub", n, ln, "usize")
        r = Seq(base.items + (Chunk("rep", (I.deep(st, x), d)),)) if not (is_int(d) and d == 0) else base
    else:
        r = T("resized", I.deep(st, base), n, I.deep(st, x))
    if c.key.startswith("Vec::resize"):
        I.store(st, a[0], r)
        return UNIT
    return r


@model("Vec::clear", "Vec::truncate", "HashMap::clear", "String::clear", "VecDeque::clear", "Map::clear")
def m_clear(I, st, a, c):
    v = L(I, st, a[0])
    if c.key == "Vec::truncate":
        n = I.simp(st, a[1])
        if isinstance(v, Seq) and is_int(n) and not v.chunks():
            I.store(st, a[0], Seq(v.items[:n]))
        else:
            I.store(st, a[0], T("truncated", I.deep(st, v), n))
        return UNIT
    if isinstance(v, MapV):
        st.ev("mapclear", v.base, c.frame.fn.path)
    new = MapV() if c.key in ("HashMap::clear", "Map::clear") else Str() if c.key == "String::clear" else Seq()
    I.store(st, a[0], new)
    return UNIT


@model("[T]::reverse")
def m_reverse(I, st, a, c):
    v = L(I, st, a[0])
    I.store(st, a[0], Seq(reversed(v.items)) if isinstance(v, Seq) else T("reversed", I.deep(st, v)))
    return UNIT


@model("[T]::swap", "[T]::rotate_left", "[T]::rotate_right")
def m_swap(I, st, a, c):
    v, k = L(I, st, a[0]), [I.simp(st, x) for x in a[1:]]
    if not isinstance(v, Seq) or v.chunks() or not all(is_int(x) for x in k):
        return None
    n, x = c.key.split("::")[1], list(v.items)
    if any(i >= len(x) + (n != "swap") for i in k):
        return [(st, Stop("panic", f"{n} out of bounds"))]
    if n == "swap":
        x[k[0]], x[k[1]] = x[k[1]], x[k[0]]
    else:
        m = k[0] if n == "rotate_left" else len(x) - k[0]
        x = x[m:] + x[:m]
    I.store(st, a[0], Seq(x))
    return UNIT


@model("[T]::sort_unstable_by_key", "[T]::sort", "[T]::sort_unstable", "[T]::sort_by_key", "[T]::sort_by", "[T]::sort_unstable_by", "[T]::sort_by_cached_key")
def m_sort(I, st, a, c):
    v = L(I, st, a[0])
    st.ev("sorted", c.key, I.deep(st, v))
    I.store(st, a[0], Seq(sorted(v.items, key=okey)) if isinstance(v, Seq) and not v.chunks() else T("sorted", I.deep(st, v)))
    return UNIT


def slice_of(I, st, v, r, c, panics=True):
    """[(state, slice or None when out of range)] of v[r]"""
    v = L(I, st, v)
    if isinstance(v, Agg) and v.tag == "readbuf":
        #the part of a buffer that a read has just filled
        f = r.f if isinstance(r, Agg) else ()
        if f and f[-1] == v.f[1] and (len(f) == 1 or f[0] == 0):
            return [(st, Seq([Chunk("blob", v.f[0])]))]
        return [(st, T("at", v, I.deep(st, r)))]
    kind = r.tag.rsplit("::", 1)[1] if isinstance(r, Agg) else "?"
    ln = I.seq_len(st, v)
    lo, hi = 0, ln
    if kind == "Range":
        lo, hi = r.f
    elif kind == "RangeFrom":
        lo = r.f[0]
    elif kind == "RangeTo":
        hi = r.f[0]
    elif kind == "RangeInclusive":
        lo, hi = r.f[0], I.binop(st, None, "Add", r.f[1], 1, "usize")
    elif kind == "RangeToInclusive":
        hi = I.binop(st, None, "Add", r.f[0], 1, "usize")
    lo, hi = I.simp(st, lo), I.simp(st, hi)
    out = []
    conds = []
    c1, c2 = I.cmp(st, "Le", lo, hi), I.cmp(st, "Le", hi, ln)
    if c1 == 0 or c2 == 0:
        return [(st, None)]
    if c1 is None or c2 is None:
        s1, s2 = st.copy(), st
        if I.assume_cmp(s1, "Le", lo, hi) and I.assume_cmp(s1, "Le", hi, ln):
            out.append((s1, cut_seq(I, s1, v, lo, hi, ln)))
        s3 = s2.copy()
        for s4, ok4 in ((s2, I.assume_cmp(s2, "Gt", lo, hi)), (s3, I.assume_cmp(s3, "Le", lo, hi) and I.assume_cmp(s3, "Gt", hi, ln))):
            if ok4:
                s4.bt[T("oob", I.deep(s4, v), lo, hi)] = 1
                out.append((s4, None))
        return out
    return [(st, cut_seq(I, st, v, lo, hi, ln))]


def cut_seq(I, st, v, lo, hi, ln):
    if lo is hi or isinstance(lo, T) and lo == hi:
        return Seq(())
    if isinstance(v, Str):
        v2 = str_bytes(v)
        r = cut_seq(I, st, v2, lo, hi, ln)
        if isinstance(r, Seq) and all(is_int(x) for x in r.items):
            return Str((bytes(r.items).decode(errors="replace"),))
        return T("substr", v, lo, hi)
    if isinstance(v, Seq):
        def off(n):
            """index of the item that starts at a length"""
            if is_int(n) and n == 0:
                return 0
            for k in range(len(v.items) + 1):
                x = I.seq_len(st, Seq(v.items[:k]))
                if x == n and type(x) is type(n):
                    return k
            return None
        if is_int(lo) and is_int(hi) and not any(isinstance(x, Chunk) for x in v.items[:hi]):
            return Seq(v.items[lo:hi])
        i, j = off(lo), (len(v.items) if hi is ln or hi == ln else off(hi))
        if i is not None and j is not None and i <= j:
            return Seq(v.items[i:j])
        return T("slice", v, lo, hi)
    if isinstance(v, T):
        if is_int(lo) and is_int(hi) and hi - lo <= 64:
            return Seq([T("idx", v, i) for i in range(lo, hi)])
        if is_int(lo) and lo == 0 and (hi is ln):
            return v
        return T("slice", v, lo, hi)
    return T("slice", I.deep(st, v), lo, hi)


@model("Index::index", "IndexMut::index_mut")
def m_index(I, st, a, c):
    v = L(I, st, a[0])
    r = I.simp(st, L(I, st, a[1]))
    if isinstance(r, Agg) and r.tag.startswith("core::ops::range::"):
        if c.key == "IndexMut::index_mut":
            if isinstance(v, Seq) and isinstance(a[0], Ref) and r.tag.endswith("RangeFull"):
                return a[0]
            if isinstance(v, Seq) and not v.chunks() and isinstance(a[0], Ref):
                f = [I.simp(st, x) for x in r.f[:2]]
                kind = r.tag.rsplit("::", 1)[1]
                lo, hi = {"Range": f, "RangeFrom": f + [len(v.items)], "RangeTo": [0] + f, "RangeToInclusive": [0] + [x + 1 for x in f if is_int(x)],
                          "RangeInclusive": [f[0]] + [x + 1 for x in f[1:] if is_int(x)]}.get(kind, f)[:2] or (None, None) if all(is_int(x) for x in f) else (None, None)
                if is_int(lo) and is_int(hi):
                    if not 0 <= lo <= hi <= len(v.items):
                        return [(st, Stop("panic", ("slice", c.frame.fn.path, c.span)))]
                    base = a[0]
                    while isinstance(w := I.load_loc(st, base.cell, base.proj), Ref):
                        base = w
                    return Ref(base.cell, tuple(base.proj) + (("ss", lo, hi, False),))
            st.note("mutable slice")
            return I.fresh("mutslice")
        out = []
        for s, x in slice_of(I, st, v, r, c):
            if x is None:
                und = I.deep(s, v)
                out.append((s, Stop("panic?" if not all(is_int(q) for q in r.f) or not isinstance(und, Seq) or und.chunks() else "panic",
                                    ("slice", c.frame.fn.path, c.span, I.deep(s, tup(und, *r.f))))))
            else:
                out.append((s, x))
        return out
    if isinstance(v, MapV):
        out = []
        for s, x in map_get(I, st, v, I.deep(st, r)):
            out.append((s, Stop("panic?", (c.key, c.frame.fn.path, c.span)) if x is ABSENT else x))
        return out
    if isinstance(v, T) and not isinstance(r, (int, T)):
        return T("at", v, I.deep(st, r))
    if isinstance(v, Seq) and is_int(r) and not v.chunks() and not 0 <= r < len(v.items):
        return [(st, Stop("panic", ("index", c.frame.fn.path, c.span)))]
    ln = I.seq_len(st, v)
    if I.cmp(st, "Lt", r, ln) is None:
        st.ev("maypanic", "bounds", c.frame.fn.path, c.span, (ln, r))
    if c.key == "IndexMut::index_mut" and isinstance(a[0], Ref):
        return Ref(a[0].cell, a[0].proj + (("i", r),))
    return I.nav(st, v, ("i", r))


@model("[T]::get", "[T]::first", "[T]::last", "Vec::get", "[T]::get_mut", "[T]::last_mut", "[T]::first_mut", "VecDeque::get", "str::get", "VecDeque::front", "VecDeque::back")
def m_get(I, st, a, c):
    v = L(I, st, a[0])
    n = c.key.split("::")[1]
    mut = n.endswith("_mut")
    n = n.replace("_mut", "")
    ln = I.seq_len(st, v)
    if n in ("first", "front"):
        i = 0
    elif n in ("last", "back"):
        if isinstance(v, Seq) and not v.chunks():
            if not v.items:
                return NONE
            i = len(v.items) - 1
        elif isinstance(v, Seq) and v.items and not isinstance(v.items[-1], Chunk):
            return some(v.items[-1])
        else:
            out = []
            for s, b in I.decide(st, T("Eq", ln, 0)):
                out.append((s, NONE if b else some(T("last", v))))
            return out
    else:
        i = I.simp(st, L(I, st, a[1]))
    if isinstance(i, Agg):
        return [(s, NONE if x is None else some(x)) for s, x in slice_of(I, st, v, i, c)]
    out = []
    cond = I.cmp(st, "Lt", i, ln)
    if isinstance(v, Seq) and is_int(i) and i < len(v.items) and not any(isinstance(x, Chunk) for x in v.items[:i + 1]):
        cond = 1
    for s, b in ([(st, cond)] if cond is not None else I.decide(st, T("Lt", i, ln))):
        if b:
            if mut and isinstance(a[0], Ref):
                out.append((s, some(Ref(a[0].cell, a[0].proj + (("i", i),)))))
            else:
                out.append((s, some(I.nav(s, v, ("i", i)))))
        else:
            out.append((s, NONE))
    return out


@model("[T]::split_at", "[T]::split_first", "[T]::split_last", "[T]::split_at_checked", "[T]::split_first_chunk", "[T]::first_chunk",
       "[T]::last_chunk", "[T]::split_last_chunk")
def m_split(I, st, a, c):
    v = L(I, st, a[0])
    n = c.key.split("::")[1]
    ln = I.seq_len(st, v)
    if n in ("split_first", "split_last"):
        if isinstance(v, Seq) and not v.chunks():
            if not v.items:
                return NONE
            return some(tup(v.items[0], Seq(v.items[1:]))) if n == "split_first" else some(tup(v.items[-1], Seq(v.items[:-1])))
        if isinstance(v, Seq) and v.items and not isinstance(v.items[0], Chunk) and n == "split_first":
            return some(tup(v.items[0], Seq(v.items[1:])))
        out = []
        for s, b in I.decide(st, T("Eq", ln, 0)):
            out.append((s, NONE if b else some(tup(T("idx", v, 0), T("slice", v, 1, ln)))))
        return out
    if n in ("split_at", "split_at_checked"):
        k = I.simp(st, a[1])
        cond = I.cmp(st, "Le", k, ln)
        out = []
        for s, b in ([(st, cond)] if cond is not None else I.decide(st, T("Le", k, ln))):
            if b:
                r = tup(cut_seq(I, s, v, 0, k, ln), cut_seq(I, s, v, k, ln, ln))
                out.append((s, r if n == "split_at" else some(r)))
            else:
                out.append((s, Stop("panic" if cond == 0 else "panic?", (c.key, c.frame.fn.path, c.span)) if n == "split_at" else NONE))
        return out
    if n in ("first_chunk", "split_first_chunk", "last_chunk", "split_last_chunk"):
        k = const_arg(c)
        if k is None:
            return None
        out = []
        for s, b in I.decide(st, T("Le", k, ln) if not is_int(ln) else int(k <= ln)):
            if not b:
                out.append((s, NONE))
                continue
            if "last" in n:
                m = ln - k if is_int(ln) else T("Sub", ln, k, "usize")
                x, y = cut_seq(I, s, v, m, ln, ln), cut_seq(I, s, v, 0, m, ln)
            else:
                x, y = cut_seq(I, s, v, 0, k, ln), cut_seq(I, s, v, k, ln, ln)
            if not isinstance(x, Seq):
                x = Seq([T("idx", v, i) for i in range(k)]) if "last" not in n else x
            out.append((s, some(x if not n.startswith("split") else tup(y, x) if "last" in n else tup(x, y))))
        return out
    return None


def const_arg(c):
    """the constant generic argument of a call"""
    for x in reversed(c.fc.get("ra") or c.fc.get("a") or []):
        if isinstance(x, list):
            x = x[0]
        elif is_int(x):
            continue
        if isinstance(x, str):
            x = c.frame.subst.get(x, x)
        if isinstance(x, str) and x.split("_")[0].isdigit():
            x = int(x.split("_")[0])
        return x if is_int(x) else None


@model("core::io::error::Error::new", "std::io::Error::new", "std::io::error::Error::new", "std::io::Error::other", "core::io::error::Error::other")
def m_ioerror(I, st, a, c):
    return T("ioerror", *[I.deep(st, x) for x in a])


@model("[T]::contains")
def m_contains(I, st, a, c):
    v = L(I, st, a[0])
    x = L(I, st, a[1])
    if isinstance(v, Seq):
        rs = [I.equal(st, y, x) for y in v.items]
        if True in rs:
            return 1
        if None not in rs:
            return 0
    return T("contains", I.deep(st, v), I.deep(st, x))


@model("[T]::starts_with", "[T]::ends_with", "[T]::strip_prefix", "[T]::strip_suffix")
def m_slice_affix(I, st, a, c):
    v, x = L(I, st, a[0]), L(I, st, a[1])
    n = c.key.split("::")[1]
    if not isinstance(v, Seq) or not isinstance(x, Seq) or x.chunks():
        return None
    k = len(x.items)
    part = v.items[:k] if "prefix" in n or "starts" in n else v.items[len(v.items) - k:] if k else ()
    rest = v.items[k:] if "prefix" in n or "starts" in n else v.items[:len(v.items) - k] if k else v.items
    if len(v.items) < k or any(isinstance(y, Chunk) for y in part):
        if v.chunks():
            return None
        return 0 if n.endswith("with") else NONE
    r = I.equal(st, Seq(part), x)
    if n.endswith("with"):
        return int(r) if r is not None else T("Eq", Seq(part), x)
    if r is not None:
        return some(Seq(rest)) if r else NONE
    return [(s, some(Seq(rest)) if b else NONE) for s, b in I.decide(st, T("Eq", Seq(part), x))]


@model("[T]::eq_ignore_ascii_case", "u8::eq_ignore_ascii_case", "char::eq_ignore_ascii_case", "[u8]::eq_ignore_ascii_case")
def m_ignore_case(I, st, a, c):
    v, x = L(I, st, a[0]), L(I, st, a[1])
    if is_int(v) and is_int(x):
        return int(chr(v).lower() == chr(x).lower() if max(v, x) < 128 else v == x)
    if isinstance(v, Seq) and isinstance(x, Seq) and not v.chunks() and not x.chunks():
        if len(v.items) != len(x.items):
            return 0
        r = 1
        for p, q in zip(v.items, x.items):
            if is_int(p):
                p, q = q, p
            if not is_int(q):
                return None
            alts = {q} | ({q ^ 32} if 65 <= q & ~32 <= 90 and q < 128 else set())
            e = None
            for y in sorted(alts):
                b = I.cmp(st, "Eq", p, y)
                t = T("Eq", p, y) if b is None else int(b)
                e = t if e is None else max(e, t) if is_int(e) and is_int(t) else 1 if 1 in (e, t) else t if is_int(e) else e if is_int(t) else T("or", e, t)
            r = e if is_int(r) and r else 0 if is_int(e) and not e or is_int(r) else r if is_int(e) else T("and", r, e)
        return r
    return None


@model("[T]::copy_from_slice", "[T]::clone_from_slice", "[T]::fill")
def m_copyfrom(I, st, a, c):
    v = L(I, st, a[0])
    x = L(I, st, a[1])
    if c.key == "[T]::fill":
        I.store(st, a[0], Seq([x] * len(v.items)) if isinstance(v, Seq) and not v.chunks() else T("filled", I.deep(st, v), x))
        return UNIT
    if isinstance(v, Seq) and isinstance(x, Seq) and not v.chunks() and not x.chunks() and len(v.items) != len(x.items):
        return [(st, Stop("panic", (c.key, c.frame.fn.path, c.span)))]
    if isinstance(a[0], Ref):
        I.store(st, a[0], x)
    else:
        st.note("copy into slice")
    return UNIT


@model("[T]::concat", "[T]::windows", "[T]::chunks", "[T]::chunks_exact", "[T]::split_off", "Vec::split_off", "Vec::drain", "[T]::iter_rev", "Vec::retain",
       "[T]::join")
def m_chunks(I, st, a, c):
    v = L(I, st, a[0])
    n = c.key.split("::")[1]
    if n == "concat" and isinstance(v, Seq):
        items = []
        for x in v.items:
            x = L(I, st, x)
            items.extend(x.items if isinstance(x, Seq) else [Chunk("blob", x)])
        return Seq(items)
    if isinstance(v, Seq) and not v.chunks():
        k = I.simp(st, a[1]) if len(a) > 1 else None
        if n == "windows" and is_int(k):
            return it_seq(Seq([Seq(v.items[i:i + k]) for i in range(len(v.items) - k + 1)]))
        if n in ("chunks", "chunks_exact") and is_int(k) and k:
            cs = [Seq(v.items[i:i + k]) for i in range(0, len(v.items), k)]
            if n == "chunks_exact":
                cs = [x for x in cs if len(x.items) == k]
            return it_seq(Seq(cs))
        if n == "drain" and isinstance(k, Agg) and k.tag.endswith("RangeFull"):
            I.store(st, a[0], Seq())
            return it_seq(v)
        if n == "split_off" and is_int(k):
            I.store(st, a[0], Seq(v.items[:k]))
            return Seq(v.items[k:])
    if n in ("windows", "chunks", "chunks_exact"):
        return Agg("iter", "opaque", (T(n, I.deep(st, v), *[I.simp(st, x) for x in a[1:]]), 0))
    return None


# ---- maps ------------------------------------------------------------------------------------------------------------
def map_get(I, st, m, key):
    """[(state, value or ABSENT)]"""
    if isinstance(m, T):
        m = MapV(m)
    out = []
    cur = [st]
    for k, v in reversed(m.over):
        r = I.equal(cur[0], k, key) if cur else None
        if not cur:
            break
        if r is True:
            out.extend((s, v) for s in cur)
            return out
        if r is False:
            continue
        nx = []
        for s in cur:
            for s2, b in I.decide(s, T("Eq", *sorted((k, key), key=okey))):
                if b:
                    out.append((s2, v))
                else:
                    nx.append(s2)
        cur = nx
    for s in cur:
        if m.base is None:
            out.append((s, ABSENT))
        else:
            for s2, b in I.decide(s, T("has", m.base, key)):
                out.append((s2, I.mapval(s2, m.base, key) if b and hasattr(I, "mapval") else T("get", m.base, key) if b else ABSENT))
    return out


def getmap(I, st, a):
    v = L(I, st, a)
    if isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, T):
        v = MapV(v)
    return v


@model("HashMap::new", "Map::new", "HashMap::with_capacity", "BTreeMap::new", "HashSet::new", "Map::with_capacity")
def m_map_new(I, st, a, c):
    if a:
        alloc(I, st, I.simp(st, a[0]), c)
    return MapV()


@model("HashMap::insert", "Map::insert", "BTreeMap::insert")
def m_map_insert(I, st, a, c):
    key = I.deep(st, a[1])
    out = []
    for s, old in map_get(I, st, getmap(I, st, a[0]), key):
        m = getmap(I, s, a[0])
        s.ev("mapset", m.base, key, I.deep(s, a[2]), c.frame.fn.path)
        I.store(s, a[0], MapV(m.base, m.over + ((key, a[2]),)))
        out.append((s, NONE if old is ABSENT else some(old)))
    return out


@model("HashMap::remove", "Map::remove", "BTreeMap::remove", "HashMap::remove_entry", "Map::swap_remove")
def m_map_remove(I, st, a, c):
    key = I.deep(st, L(I, st, a[1]))
    out = []
    for s, old in map_get(I, st, getmap(I, st, a[0]), key):
        m = getmap(I, s, a[0])
        s.ev("mapdel", m.base, key, c.frame.fn.path)
        I.store(s, a[0], MapV(m.base, m.over + ((key, ABSENT),)))
        out.append((s, NONE if old is ABSENT else some(old if c.key != "HashMap::remove_entry" else tup(key, old))))
    return out


@model("HashMap::get", "Map::get", "HashMap::contains_key", "Map::contains_key", "BTreeMap::get", "HashMap::get_key_value")
def m_map_get(I, st, a, c):
    m = getmap(I, st, a[0])
    if not isinstance(m, MapV):
        return None
    key = I.deep(st, L(I, st, a[1]))
    out = []
    for s, v in map_get(I, st, m, key):
        if c.key.endswith("contains_key"):
            out.append((s, int(v is not ABSENT)))
        else:
            out.append((s, NONE if v is ABSENT else some(v if not c.key.endswith("key_value") else tup(key, v))))
    return out


def map_slot(I, st, ref, key):
    """a reference to the value of a key that is present: its value is moved to a cell of its own entry"""
    m = getmap(I, st, ref)
    base = ref
    while isinstance(L(I, st, base), Agg):
        base = Ref(base.cell, base.proj + (("f", 0),))
    for i, (k, v) in enumerate(m.over):
        if (k == key or I.equal(st, k, key) is True) and v is not ABSENT and all(k2 != key and I.equal(st, k2, key) is not True for k2, _ in m.over[i + 1:]):
            return Ref(base.cell, base.proj + (("mv", k),))
    v = I.mapval(st, m.base, key) if hasattr(I, "mapval") else T("get", m.base, key)
    I.store(st, base, MapV(m.base, m.over + ((key, v),)))
    return Ref(base.cell, base.proj + (("mv", key),))


@model("HashMap::get_mut", "Map::get_mut")
def m_map_getmut(I, st, a, c):
    key = I.deep(st, L(I, st, a[1]))
    out = []
    for s, v in map_get(I, st, getmap(I, st, a[0]), key):
        out.append((s, NONE if v is ABSENT else some(map_slot(I, s, a[0], key))))
    return out


ENTRY = {"std": "std::collections::hash::map::Entry", "hb": "hashbrown::map::Entry"}


@model("HashMap::entry", "Map::entry")
def m_entry(I, st, a, c):
    key = I.deep(st, a[1])
    tag = ENTRY["hb"] if "hashbrown" in c.fc["p"] else ENTRY["std"]
    if "serde_json" in c.fc["p"]:
        return None
    names = [v["n"] for v in I.P.adts[tag]["v"]] if tag in I.P.adts else ["Occupied", "Vacant"]
    out = []
    for s, v in map_get(I, st, getmap(I, st, a[0]), key):
        e = Agg("mapentry", None, (a[0], key))
        out.append((s, Agg(tag, names.index("Vacant" if v is ABSENT else "Occupied"), (e,))))
    return out


def entry_of(I, st, v):
    v = L(I, st, v)
    if isinstance(v, Agg) and v.tag in ENTRY.values():
        a = I.P.adts.get(v.tag)
        return v.f[0], (a["v"][v.var]["n"] if a else ["Occupied", "Vacant"][v.var]) == "Occupied"
    return v, None


def entry_set(I, st, e, v, c):
    r, key = e.f
    m = getmap(I, st, r)
    st.ev("mapset", m.base, key, I.deep(st, v), c.frame.fn.path)
    base = r
    while isinstance(L(I, st, base), Agg):
        base = Ref(base.cell, base.proj + (("f", 0),))
    I.store(st, base, MapV(m.base, m.over + ((key, v),)))
    return Ref(base.cell, base.proj + (("mv", key),))


def entry_get(I, st, e):
    r, key = e.f
    return map_slot(I, st, r, key)


@model("VacantEntry::insert", "VacantEntry::insert_entry", "OccupiedEntry::insert", "VacantEntry::key", "OccupiedEntry::key", "Entry::key", "OccupiedEntry::get_mut",
       "OccupiedEntry::get", "OccupiedEntry::into_mut", "OccupiedEntry::remove", "OccupiedEntry::remove_entry", "VacantEntry::into_key", "Entry::or_insert", "Entry::or_default",
       "Entry::or_insert_with", "Entry::and_modify", "Entry::insert", "Entry::insert_entry")
def m_entries(I, st, a, c):
    ty, n = c.key.split("::")
    e, occ = entry_of(I, st, a[0])
    if not (isinstance(e, Agg) and e.tag == "mapentry"):
        return None
    if n in ("key", "into_key"):
        return e.f[1]
    if n == "remove" or n == "remove_entry":
        r, key = e.f
        m = getmap(I, st, r)
        old = L(I, st, entry_get(I, st, e))
        m = getmap(I, st, r)
        st.ev("mapdel", m.base, key, c.frame.fn.path)
        I.store(st, r, MapV(m.base, m.over + ((key, ABSENT),)))
        return old if n == "remove" else tup(key, old)
    if n in ("get_mut", "into_mut"):
        return entry_get(I, st, e)
    if n == "get":
        return L(I, st, entry_get(I, st, e))
    if n == "insert" and ty == "OccupiedEntry":
        old = L(I, st, entry_get(I, st, e))
        entry_set(I, st, e, a[1], c)
        return old
    if n == "insert" and ty == "VacantEntry":
        return entry_set(I, st, e, a[1], c)
    if n in ("insert_entry", "insert"):
        entry_set(I, st, e, a[1], c)
        return e
    if n.startswith("or_"):
        if occ:
            return entry_get(I, st, e)
        if n == "or_insert":
            return entry_set(I, st, e, a[1], c)
        if n == "or_default":
            t = c.dest_ty
            if t.get("k") == "ref":
                t = c.frame.fn.types[t["t"]]
            return entry_set(I, st, e, default_of(I, c, t), c)
        return each(I.call_value(st, a[1], [], c.frame, c.span), lambda s, v: entry_set(I, s, e, v, c))
    if n == "and_modify":
        if not occ:
            return L(I, st, a[0])
        v = L(I, st, a[0])
        return each(I.call_value(st, a[1], [entry_get(I, st, e)], c.frame, c.span), lambda s, x: v)
    return None


# ---- futures ---------------------------------------------------------------------------------------------------------
@model("future::get_context", "sync::is_disabled", "span::Span::none")
def m_ctx(I, st, a, c):
    return T("ctx")


@model("Future::poll")
def m_poll(I, st, a, c):
    f = L(I, st, a[0])
    return [(s, Agg(POLL, 1, ()) if isinstance(v, Stop) and v.kind == "pending" else v if isinstance(v, Stop) else Agg(POLL, 0, (v,))) for s, v in run_future(I, st, f, c)]


@model("future::poll_fn", "poll_fn::poll_fn")
def m_poll_fn(I, st, a, c):
    return future("poll_fn", do_poll_fn, a)


def do_poll_fn(I, st, a, c):
    """one round of polling in which some branch is ready; rounds in which none is are waited through"""
    d = st.x.get("select", 0)
    st.x["select"] = d + 1
    out = []
    for s, v in I.call_value(st, a[0], [T("ctx")], c.frame, c.span):
        s.x["select"] = d
        if isinstance(v, Stop):
            out.append((s, v))
        else:
            for s2, v2, k in I.variants(s, v, n=2):
                if k == 0:
                    out.append((s2, I.payload(v2, 0)))
                elif d:
                    out.append((s2, Stop("pending", "poll_fn")))
    return out


def run_future(I, st, f, c):
    f = L(I, st, f)
    if isinstance(f, Agg) and f.tag.startswith("coroutine:"):
        fn = I.P.fns.get(f.tag[10:])
        if fn:
            cell = I.cell(st, f)
            body = fn.j["body"]
            return I.run_body(fn, body, [Ref(cell), T("ctx")][:body["argc"]], st, c.frame.subst if c.frame else {}, (c.frame.depth if c.frame else 0) + 1)
    if isinstance(f, Agg) and f.tag == "future":
        return f.f[0](I, st, f.f[1], c)
    st.ev("await", I.deep(st, f), c.frame.fn.path, c.span)
    return [(st, T("awaited", I.deep(st, f)))]


class Fut:
    """the body of an external future"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, I, st, a, c):
        r = self.f(I, st, a, c)
        return r if isinstance(r, list) else [(st, r)]

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, Fut) and o.name == self.name

    def __repr__(self):
        return "future " + self.name


def future(name, f, args):
    return Agg("future", None, (Fut(name, f), tuple(args)))


# ---- tracing: never enabled ------------------------------------------------------------------------------------------
@model("Span::is_disabled", "dispatcher::has_been_set", "Span::is_none")
def m_true(I, st, a, c):
    return 1


@model("LevelFilter::current", "log::max_level", "Log::enabled", "__macro_support::__is_enabled", "Interest::is_never", "DefaultCallsite::interest", "MacroCallsite::interest",
       "Callsite::metadata", "log::logger", "Span::none", "Span::current", "Metadata::builder", "Span::enter", "Span::entered", "Span::record", "Span::new", "Metadata::level",
       "Span::follows_from", "Span::record_all", "__macro_support::disabled_span", "Span::in_scope")
def m_trace(I, st, a, c):
    if c.key == "__macro_support::__is_enabled":
        return 0
    if c.key == "Log::enabled":
        return 0
    return T("trace")


# ---- hashing ---------------------------------------------------------------------------------------------------------
@model("Hash::hash", "Hasher::write_u8", "Hasher::write_usize", "Hasher::write_u64", "Hasher::write", "Hasher::write_u32", "Hasher::write_i32", "Hash::hash_slice",
       "Hasher::write_isize", "Hasher::write_i64", "Hasher::write_u16", "Hasher::write_length_prefix", "Hasher::write_u128", "Hasher::write_i128")
def m_hash(I, st, a, c):
    if c.key.startswith("Hasher"):
        st.ev("hash", I.deep(st, L(I, st, a[1])))
    else:
        v = L(I, st, a[0])
        t = (c.argtys[0]["s"] if c.argtys else "").lstrip("&")
        fn = I.impls.get(("core::hash::Hash", t, None, "hash"))
        if fn and isinstance(v, (Agg, T)):
            return I.run(fn, [v, a[1]], st, {}, c.frame.depth + 1)
        st.ev("hash", I.deep(st, v))
    return UNIT


# ---- chrono, addresses, json -----------------------------------------------------------------------------------------
@model("NaiveDateTime::date", "NaiveDateTime::time", "Datelike::year", "Datelike::month", "Datelike::day", "Timelike::hour", "Timelike::minute", "Timelike::second",
       "Timelike::nanosecond", "Datelike::ordinal", "Datelike::month0", "Datelike::day0", "Datelike::ordinal0", "Datelike::num_days_from_ce", "Timelike::num_seconds_from_midnight",
       "DateTime::naive_local", "NaiveDateTime::and_utc", "DateTime::timestamp", "DateTime::timestamp_subsec_nanos")
def m_chrono_get(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    n = c.key.split("::")[1]
    #a component of a date-time is that component of its date or time
    if isinstance(v, T) and v.op == "chrono" and v.a[0] in ("date", "time"):
        v = v.a[1]
    if isinstance(v, T) and v.op == "ndt":
        v = v.a[0] if n in ("date", "year", "month", "day") else v.a[1]
        if n in ("date", "time"):
            return v
    if isinstance(v, T) and v.op in ("ymd", "hmsn"):
        names = ("year", "month", "day") if v.op == "ymd" else ("hour", "minute", "second", "nanosecond")
        if n in names:
            return v.a[names.index(n)]
    ty = c.dest_ty.get("s", "?")
    if ty in WIDTH:
        lo, hi = {"month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "nanosecond": (0, 1_999_999_999),
                  "month0": (0, 11), "day0": (0, 30), "ordinal": (1, 366), "ordinal0": (0, 365), "year": (-262143, 262142)}.get(n, (None, None))
        t = T("chrono", n, v, ty)
        if lo is not None and t not in st.iv:
            st.iv[t] = (lo, hi, frozenset())
        return t
    return T("chrono", n, v)


@model("NaiveDate::from_ymd", "NaiveTime::from_hms", "NaiveTime::from_hms_nano", "NaiveTime::from_hms_milli", "NaiveTime::from_hms_micro")
def m_chrono_panics(I, st, a, c):
    """the forms that panic where the others give None"""
    c2 = copy.copy(c)
    c2.key = c.key + "_opt"
    return [(s, v.f[0] if v.var == 1 else Stop("panic", (c.key, c.frame.fn.path, c.span))) for s, v in I.wrapres(st, m_chrono_new(I, st, a, c2))]


@model("decompress::decompress", "lz4_flex::decompress", "block::decompress")
def m_lz4(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    n = I.simp(st, a[1])
    alloc(I, st, n, c)
    x = T("unlz4", v, n)
    ln = T("len", x)
    l = I.linear(n)
    st.lin.append(I.linear(ln, -1, l))
    return fork_opaque(I, st, "decompress", tup(v, n), RES, Seq([Chunk("raw", T("raw", ("unlz4", x), ln))]))


@model("NaiveDate::from_ymd_opt", "NaiveTime::from_hms_nano_opt", "NaiveTime::from_hms_opt", "NaiveTime::from_hms_milli_opt", "NaiveTime::from_hms_micro_opt")
def m_chrono_new(I, st, a, c):
    n = c.key.split("::")[1]
    v = [I.simp(st, strip_cast(x)) for x in a]
    names = {"from_ymd_opt": ("year", "month", "day"), "from_hms_nano_opt": ("hour", "minute", "second", "nanosecond")}.get(n)
    if names and all(isinstance(x, T) and x.op == "chrono" and x.a[0] == nm and x.a[1] == v[0].a[1] for x, nm in zip(v, names)):
        return some(T("chrono", "date" if n == "from_ymd_opt" else "time", v[0].a[1]))
    return fork_opaque(I, st, n, tup(*v), OPT, T("ymd" if n == "from_ymd_opt" else "hmsn" if n == "from_hms_nano_opt" else n, *v))


def strip_cast(x):
    while isinstance(x, T) and x.op == "cast" and isinstance(x.a[1], T):
        x = x.a[1]
    return x


@model("NaiveDateTime::new", "NaiveDate::and_time")
def m_ndt(I, st, a, c):
    d, t = a[0], a[1]
    if isinstance(d, T) and isinstance(t, T) and d.op == "chrono" and t.op == "chrono" and d.a[0] == "date" and t.a[0] == "time" and d.a[1] == t.a[1]:
        return d.a[1]
    return T("ndt", I.deep(st, d), I.deep(st, t))


@model("Tz::name")
def m_tzname(I, st, a, c):
    return T("tzname", L(I, st, a[0]))


@model("FromStr::from_str", "str::parse")
def m_parse(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    ty = c.dest_ty
    dst = c.frame.fn.types[ty["a"][0]]["s"] if ty.get("a") else "?"
    fn = I.impls.get(("core::str::traits::FromStr", dst, None, "from_str"))
    if fn and c.key == "str::parse":
        h = I.hooks.get(fn.path)
        if h:
            r = I.wrapres(st, h(I, st, [v], c))
            if r is not None:
                return r
        return I.run(fn, [v], st, {}, c.frame.depth + 1)
    if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], T):
        v = v.parts[0]
    if isinstance(v, T) and v.op == "tzname" and dst == "chrono_tz::timezones::Tz":
        return ok(v.a[0])
    if isinstance(v, T) and v.op == "fmtpart" and v.a[0] == "debug" and dst == "chrono::naive::datetime::NaiveDateTime" and v.a[3] == dst and not v.a[2]:
        #chrono documents that the debug form, and not the displayed one, is what parsing reads
        return ok(v.a[1])
    if isinstance(v, T) and v.op == "fmtpart" and v.a[0] == "debug" and dst == "chrono_tz::timezones::Tz" and not v.a[2]:
        return ok(v.a[1])
    if isinstance(v, T) and v.op == "display" and dst == "chrono::naive::datetime::NaiveDateTime":
        return err(T("ParseError", v))
    if isinstance(v, T) and v.op == "display" and (dst.startswith("core::net") or dst == "chrono_tz::timezones::Tz"):
        return ok(v.a[0])
    if isinstance(v, Str) and all(isinstance(p, str) for p in v.parts) and ty_range(dst) and dst not in ("char", "bool"):
        txt = "".join(v.parts)
        lo, hi = ty_range(dst)
        n = re.fullmatch("[+-]?[0-9]+" if lo < 0 else "[+]?[0-9]+", txt)
        n = int(txt) if n else None
        return ok(n) if n is not None and lo <= n <= hi else err(T("ParseError", v))
    return fork_opaque(I, st, "parse " + dst, v, RES, T("parsed", dst, v))


def m_serialize_int(t):
    def f(I, st, a, c):
        return ok(T("serialised", t, I.deep(st, L(I, st, a[1]))))
    return f


for _t in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
    MODELS.setdefault(f"Serializer::serialize_{_t}", m_serialize_int(_t))


@model("Ipv4Addr::octets", "Ipv6Addr::segments", "Ipv6Addr::octets", "Ipv4Addr::to_bits", "Ipv6Addr::to_bits")
def m_octets(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    n = c.key.split("::")[1]
    if n == "to_bits":
        return T("ipbits", v, c.dest_ty.get("s", "?"))
    cnt = {"Ipv4Addr::octets": 4, "Ipv6Addr::segments": 8, "Ipv6Addr::octets": 16}[c.key]
    ty = "u16" if n == "segments" else "u8"
    return Seq([T("ip", n, i, v, ty) for i in range(cnt)])


@model("Ipv4Addr::new", "Ipv6Addr::new", "Ipv4Addr::from_octets", "Ipv6Addr::from_octets", "Ipv6Addr::from_segments", "Ipv4Addr::from_bits", "Ipv6Addr::from_bits",
       "Ipv4Addr::from", "Ipv6Addr::from")
def m_ipnew(I, st, a, c):
    return ip_new(I, st, a, c.key)


def ip_new(I, st, a, name):
    if len(a) == 1:
        v = L(I, st, a[0])
        if isinstance(v, T) and v.op == "ipbits":
            return v.a[0]
        items = list(v.items) if isinstance(v, Seq) else None
    else:
        items = [I.simp(st, L(I, st, x)) for x in a]
    if items:
        items = [I.simp(st, x) for x in items]
        x0 = items[0]
        if isinstance(x0, T) and x0.op == "ip" and all(isinstance(x, T) and x.op == "ip" and x.a[0] == x0.a[0] and x.a[1] == i and x.a[2] == x0.a[2]
                                                       for i, x in enumerate(items)):
            return x0.a[2]
        return T("ipnew", name.split("::")[0] if "::" in name else name, *items)
    return T("ipnew", name, *[I.deep(st, x) for x in a])
