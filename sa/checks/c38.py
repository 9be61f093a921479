"""C38: plain JSON documents come back as they were."""
from lib import *
from souris import *
from models2 import SJ
from c35 import plainly

STORE = "sourisdb::store::Store"
CONV, BACK = VAL + "::convert_to_json", VAL + "::convert_from_json"
SCONV, SBACK = STORE + "::to_json", STORE + "::from_json"
NULL = Agg(SJ, 0, ())


def num(kind, x):
    return Agg(SJ, 2, (T("num", kind, x),))


def s_(name="text"):
    return Agg(SJ, 3, (Str((T("sym", name),)),))


def arr(*x):
    return Agg(SJ, 4, (Seq(list(x)),))


def obj(*kv):
    return Agg(SJ, 5, (MapV(None, [(Str((k,)) if isinstance(k, str) else Str((k,)), v) for k, v in kv]),))


def documents(deep):
    u = lambda n="n": num("u64", T("sym", n, "u64"))
    f = lambda n="f": num("f64", T("sym", n, "f64"))
    b = lambda n="b": Agg(SJ, 1, (T("sym", n, "bool"),))
    leaves = [("null", NULL), ("boolean", b()), ("natural number", u()), ("float", f()), ("text", s_()), ("no text", Agg(SJ, 3, (Str(()),))), ("one letter", Agg(SJ, 3, (Str(("a",)),)))]
    #a negative number is stored as such: from_json sees an i64 below zero
    leaves.append(("negative number", num("i64", T("sym", "m", "i64"))))
    for n in (0, 1, 255, 256, (1 << 63) - 1, 1 << 63, (1 << 64) - 1):
        leaves.append((f"the number {n}", num("u64", n)))
    for n in (-1, -128, -129, -255, -256, -257, -(1 << 63)):
        leaves.append((f"the number {n}", num("i64", n)))
    for w in (" a b ", "A\tZ\n", "null", "true", "12", "-1", "1.5", "é", "\u0000", "{}", "2020-01-01T00:00:00", "UTC", "127.0.0.1"):
        leaves.append((f"the text {w!r}", Agg(SJ, 3, (Str((w,)),))))
    yield from leaves
    yield "empty array", arr()
    yield "empty object", obj()
    for n, l in leaves:
        yield f"array of {n}", arr(l)
        yield f"object of {n}", obj(("k", l))
        yield f"{n} under the empty key", obj(("", l))
        yield f"{n} under a blank key", obj(("a", obj((" ", l))))
        yield f"{n} under the first of two keys", obj(("_", l), ("é", arr()))
    x = [Agg(SJ, 3, (Str((T("sym", f"t{i}"),)),)) for i in range(6)]
    yield "array of two", arr(x[0], x[1])
    yield "array of equals", arr(x[0], x[0])
    yield "array of three", arr(x[0], NULL, x[1])
    yield "mixed array", arr(u(), b(), f(), x[0], NULL)
    yield "array of nulls", arr(NULL, NULL)
    yield "object of two", obj(("a", x[0]), ("b", x[1]))
    yield "object with nulls", obj(("a", NULL), ("b", x[1]))
    yield "object with an empty key", obj(("", x[0]), ("b", NULL))
    yield "array of arrays", arr(arr(x[0]), arr(), arr(x[1], arr(x[2])))
    yield "object in an array", arr(obj(("a", x[0])), obj())
    yield "array in an object", obj(("a", arr(x[0], x[1])), ("b", arr()))
    yield "objects in an object", obj(("a", obj(("a", x[0]))), ("b", obj()))
    yield "array of four numbers", arr(*[u(f"n{i}") for i in range(4)])
    yield "array of eight numbers", arr(*[u(f"n{i}") for i in range(8)])
    for k in ("real", "imaginary", "modulus", "argument", "timestamp", "timezone", "octets", "bytes", "compression", "data", "binary", "value", "type", "json", "Json"):
        yield f"object of {k}", obj((k, x[0]))
        yield f"object of {k} and another", obj((k, x[0]), ("z", x[1]))
    yield "object of real and imaginary", obj(("real", u("n0")), ("imaginary", u("n1")))
    yield "object of modulus and argument", obj(("modulus", f("f0")), ("argument", f("f1")))
    yield "tag that is text", obj(("souris_type", x[0]), ("z", x[1]))
    yield "tag that is null", obj(("souris_type", NULL))
    yield "JSON and another", obj(("JSON", x[0]), ("z", x[1]))
    yield "JSON alone", obj(("JSON", x[0]))
    yield "JSON alone in an object", obj(("a", obj(("JSON", x[0]))))
    yield "JSON alone in an array", arr(obj(("JSON", x[0])))
    if deep:
        for n in range(2, 12):
            yield f"array of {n} texts", arr(*[s_(f"t{i}") for i in range(n)])
            yield f"object of {n} texts", obj(*[(f"k{i}", s_(f"t{i}")) for i in range(n)])


def readable(I, st, v):
    """a JSON value with numbers in one form, so that equal documents look equal"""
    v = I.load(st, v)
    if isinstance(v, Agg) and v.tag == SJ:
        if v.var == 2:
            n = I.load(st, v.f[0])
            if isinstance(n, T) and n.op == "num":
                if n.a[0] in ("f64", "f32"):
                    return Agg("float", 0, (n.a[1],))
                return Agg("integer", 0, (plainly(I, st, n.a[1]),))
            return Agg("number", 0, (n,))
        return Agg(SJ, v.var, tuple(readable(I, st, x) for x in v.f))
    if isinstance(v, Seq):
        return Seq([readable(I, st, x) if not isinstance(x, Chunk) else x for x in v.items])
    if isinstance(v, MapV):
        return MapV(v.base, [(k, readable(I, st, x)) for k, x in v.over])
    return v


def start(I, doc):
    """the document's floats are finite and its negative numbers negative: JSON has no others"""
    st = State()
    for t in subterms(doc):
        if t.op == "sym" and len(t.a) > 1 and t.a[1] == "i64":
            I.assume_cmp(st, "Lt", t, 0)
        if t.op == "sym" and len(t.a) > 1 and t.a[1] == "f64":
            st = next(s for s, b in I.decide(st, T("finite", t)) if b)
    return st


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("JSON documents of every shape with unknown numbers, texts and booleans are imported and exported again by interpretation, as values and as stores, and what is exported must be the same "
                       "document with the same contents in the same places. The serde entry points of the store must hand the value's JSON form, and nothing else, through the serialised store and back.")
    ctx.rule("export(import(d)) = d for plain documents d, with and without tags; to_bytes(t) = ser(from_json(json(t))) and from_bytes(b) = value(to_json(deser(b), no tags))")
    ctx.assumptions += ["an object with a number under souris_type is a tagged value, not a plain document (C13)", "documents of the shapes enumerated; deeper ones go through the same recursion"]
    ctx.floor = 100
    if not ctx.need(CONV, BACK, SCONV, SBACK):
        return
    for n, d in documents(ctx.thorough):
        for what, imp, exp in (("value", BACK, CONV), ("store", SBACK, SCONV)):
            for tags in (0, 1):
                guard(ctx, f"{what}: {n}", "a document comes back", lambda: document(ctx, f"{what}: {n}", d, imp, exp, tags))
    guard(ctx, "unknown key", "a document comes back", lambda: [document(ctx, f"{w}: object with an unknown key", obj((T("sym", "key"), s_()), ("other", NULL)), i, e, 0)
                                                             for w, i, e in (("value", BACK, CONV), ("store", SBACK, SCONV))])
    if STORE + "::to_bytes" in P.fns:
        guard(ctx, "to_bytes", "data is stored by its JSON form", lambda: to_bytes(ctx))
    if STORE + "::from_bytes" in P.fns:
        guard(ctx, "from_bytes", "data is read by its JSON form", lambda: from_bytes(ctx))


def document(ctx, key, d, imp, exp, tags):
    desc = "a document comes back as it was"
    I = ctx.interp(int_hooks())
    n = 0
    for s, v in I.run(imp, [d], start(I, d)):
        ctx.paths += 1
        n += 1
        if isinstance(v, Stop):
            ctx.ob(key, False if v.kind == "panic" else None, desc, f"importing {short(d, 200)} does not return: {v}")
            continue
        if not is_ok(v):
            ctx.ob(key, None if not is_err(v) or opaque(v) else False, desc, f"importing {short(d, 200)} gives {short(v)}")
            continue
        for s2, w in I.run(exp, [v.f[0], tags], s):
            ctx.paths += 1
            if isinstance(w, Stop):
                ctx.ob(key, False if w.kind == "panic" else None, desc, f"exporting {short(v, 200)} does not return: {w}")
            elif isinstance(w, Agg) and w.tag == OPT and w.var == 1:
                r = same(I, s2, readable(I, s2, d), readable(I, s2, w.f[0]))
                ctx.ob(key, r[0], desc, f"{short(d, 160)} becomes {short(w.f[0], 160)}: {r[1]}" if r[0] is not True else "")
            else:
                no = isinstance(w, Agg) and w.tag == OPT and not opaque(v)
                ctx.ob(key, False if no else None, desc, f"{short(d, 200)}, imported as {short(v)}, cannot be exported")
    if not n:
        ctx.ob(key, None, desc, "no path imports it")


def unit(op, res):
    def h(I, st, a, c):
        t = T(op, *[I.deep(st, I.load(st, x)) for x in a])
        if res is None:
            return t
        out = []
        for s, b in I.decide(st, T("works", t)):
            out.append((s, Agg(res, (0 if res == RES else 1) if b else (1 if res == RES else 0), (t,) if b else (T("error of", t),) if res == RES else ())))
        return out
    return h


def to_bytes(ctx):
    key, desc = "to_bytes", "what is stored is the JSON form of the data"
    I = ctx.interp({SBACK: unit("store of", RES), STORE + "::ser": unit("bytes of", None)})
    t = T("sym", "data")
    for s, r in I.run(STORE + "::to_bytes", [Ref(I.cell(st := State(), t), ())], st, {"T": "T"}):
        ctx.paths += 1
        if isinstance(r, Stop):
            ctx.ob(key, False if r.kind == "panic" else None, desc, r)
        elif is_ok(r):
            x = I.deep(s, I.load(s, r.f[0]))
            good = isinstance(x, T) and x.op == "bytes of" and isinstance(x.a[0], T) and x.a[0].op == "store of" and isinstance(x.a[0].a[0], T) and x.a[0].a[0].op == "jsonvalue" and t in subterms(x)
            ctx.ob(key, True if good else None, desc, short(x))


def from_bytes(ctx):
    key, desc = "from_bytes", "what is read is the JSON form without tags"
    I = ctx.interp({SCONV: unit("json of", OPT), STORE + "::deser": unit("store in", RES)})
    b = T("sym", "bytes")
    for s, r in I.run(STORE + "::from_bytes", [b], State(), {"T": "T"}):
        ctx.paths += 1
        if isinstance(r, Stop):
            ctx.ob(key, False if r.kind == "panic" else None, desc, r)
            continue
        if is_ok(r):
            x = I.deep(s, I.load(s, r.f[0]))
            j = x.a[1] if isinstance(x, T) and x.op == "parsed" else None
            if not (isinstance(j, T) and j.op == "json of" and isinstance(j.a[0], T) and j.a[0].op == "store in" and j.a[0].a[0] == b):
                ctx.ob(key, None, desc, short(x))
            else:
                ctx.ob(key, j.a[1] == 0 if is_int(j.a[1]) else None, desc, f"the JSON is made with tags: {short(x)}")
