"""C06: no input makes a decoder panic."""
import itertools
import opq, c14
from opq import *

DESC = "every path through a decoder, whatever it reads, ends in a value or an error"
USIZE = 1 << 63


def judge_panic(ctx):
    def f(name, I, s, r):
        for e in s.events:
            if e[0] == "alloc" and e[5] is not None:
                lo, hi = I.bounds(e[5], e[1])
                #room for more elements than can be addressed is a panic as well
                if "try_" in e[4] or hi is not None and hi < USIZE:
                    continue
                u = upper(I, e[5], e[1])
                if u and u[0] * TOP + u[1] < USIZE:
                    continue
                w = None if opaque(e[1]) or hidden(e[1]) else over(I, e[5], e[1])
                ctx.ob(f"{name}: {last(e[2])}: capacity overflow", False if w else None, DESC, f"{e[4]} of {short(e[1])} elements in {e[2]}" + (f", for example {w}" if w else ""))
        if isinstance(r, Stop) and r.kind in ("panic", "panic?"):
            v, text = panicking(I, s, r)
            ctx.ob(f"{name}: {last(r.info[1])}: {str(r.info[0])[:60]}", False if v else None, DESC, text)
        elif isinstance(r, Stop):
            ctx.ob(name, None, DESC, r)
        else:
            ctx.ob(name, True, DESC)
    return f


def over(I, st, n):
    s = st.copy()
    if not I.assume_cmp(s, "Ge", n, USIZE):
        return None
    return witness(I, s, n)


def last(p):
    return p.split("::")[-1] if not p.endswith("}") else "::".join(p.split("::")[-2:])


def all_of(ctx, judge, key, I, fn, args, st, sub=None):
    for s, r in I.run(fn, args, st, sub or {}):
        ctx.paths += 1
        judge(key, I, s, r)
        if not isinstance(r, Stop):
            yield s, r


def drain(g):
    for _ in g:
        pass


def cursors(ctx, judge):
    """every operation of the cursor, on data of every length, from every position, with every argument"""
    P = ctx.program()
    for f in sorted(P.fns):
        if not (f.startswith(c14.C) or f.startswith(f"<{CUR}<'a, T> as ")) or f == c14.NEW or "{closure" in f:
            continue
        fn = P.fns[f]
        body = fn.j["body"]
        tys = [fn.types[l[0]]["s"] for l in body["locals"][1:body["argc"] + 1]]
        if not tys or not tys[0].startswith("&"):
            continue
        key = f"cursor: {c14.name(f)}"

        def go():
            I = ctx.interp()
            I.panics = True
            n = T("sym", "length", "usize")
            data = Seq([Chunk("raw", T("raw", "data", n))])
            st = State()
            st.iv[n] = (0, TOP, frozenset())
            for st, r in c14.make(ctx, I, data, T("sym", "position", "usize"), st):
                for a in c14.arguments(tys[1:]):
                    for k in (1, 3, 8, 16) if "N" in (fn.j.get("gen") or []) else (0,):
                        drain(all_of(ctx, judge, key, I, f, [r] + a, st.copy(), {"N": k, "T": "u8"}))
        guard(ctx, key, DESC, go)


def conversions(ctx, judge):
    """every integer that can be decoded, to every machine integer"""
    I = ctx.interp()
    I.panics = True
    for n in range(0, 18):
        for sign in range(3):
            def go():
                st = State()
                items = [T("sym", ("byte", i), "u8") for i in range(n)]
                for s, r in I.run(f"{INT}::deser", [Agg(SS, sign, ()), ref(I, st, cursor(items))], st):
                    if isinstance(r, Stop) or not is_ok(r):
                        continue
                    for t in INTTYS:
                        f = f"sourisdb::types::integer::<impl core::convert::TryFrom<{INT}> for {t}>::try_from"
                        if f in ctx.P.fns:
                            drain(all_of(ctx, judge, f"integer to {t}", I, f, [r.f[0]], s.copy()))
            guard(ctx, f"integer of {n} bytes", DESC, go)


def coded(ctx, judge):
    """every small tree that can be decoded, and every short bit string, decoded with it"""
    for ty in ("u8", "char"):
        I = ctx.interp({**any_cursor(), **any_ints()}, max_paths=60000, max_steps=6_000_000)
        I.panics = True
        key = f"huffman data of {ty}"

        def go():
            st = start(9 if ctx.thorough else 7)
            for s, h in I.run(f"{HUF}::<{ty}>::deser", [ref(I, st, stream())], st, {"T": ty}):
                if isinstance(h, Stop) or not is_ok(h):
                    continue
                hr = ref(I, s, h.f[0])
                for n in (0, 1, 3) if not ctx.thorough else (0, 1, 2, 3, 5, 9):
                    s1 = s.copy()
                    s1.x["reads"], s1.x["ints"] = 4, (n,)
                    for s2, b in I.run(f"{BITS}::deser", [ref(I, s1, stream("bits"))], s1):
                        if isinstance(b, Stop) or not is_ok(b):
                            continue
                        drain(all_of(ctx, judge, key, I, f"{HUF}::<T>::decode", [hr, b.f[0]], s2, {"T": ty}))
        if ctx.need(f"{HUF}::<T>::decode"):
            guard(ctx, key, DESC, go)


def run(ctx):
    ctx.explanation = ("Every decoder is interpreted on input of which nothing is known: each read fails or gives arbitrary bytes, and each number decoded is arbitrary. "
                       "Conditions asserted at run time are followed in both directions; a path that ends in a panic is a violation when numbers are found with which it is taken.")
    ctx.rule(DESC)
    ctx.floor = 40
    judge = judge_panic(ctx)
    cursors(ctx, judge)
    conversions(ctx, judge)
    coded(ctx, judge)
    sweep(ctx, judge)
