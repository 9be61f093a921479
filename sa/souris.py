"""Models of this repository's own leaf types, used when a check is about something else.

Each one is justified by a check of its own: Cursor by C14, the bytes of an Integer by C33, conversions of an Integer by C10,
Bits by C30, the Huffman tables by C05."""
from vals import *
from interp import Interp, State, Stop, ty_range, WIDTH, Infeasible
import stdmodels
from stdmodels import L, each, fork_opaque

SS = "sourisdb::types::integer::SignedState"
INT = "sourisdb::types::integer::Integer"
CUR = "sourisdb::utilities::cursor::Cursor"
VAL = "sourisdb::values::Value"
TY = "sourisdb::values::ValueTy"
BITS = "sourisdb::utilities::bits::Bits"
IMAG = "sourisdb::types::imaginary::Imaginary"
ISE = "sourisdb::types::integer::IntegerSerError"
INTTYS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


def variant_of(I, adt, name, *f):
    return Agg(adt, I.P.variant(adt, name), f)


def ise(I, name):
    return variant_of(I, ISE, name)


# ---- Integer ---------------------------------------------------------------------------------------------------------
def int_from(I, st, a, c):
    ty = c.key_ty
    return T("Int", I.simp(st, a[0]), ty)


def h_int_from(ty):
    def f(I, st, a, c):
        x = I.simp(st, L(I, st, a[0]))
        y = x
        while isinstance(y, T) and y.op == "cast" and len(y.a) > 2:
            lo, hi = I.bounds(st, y.a[1])
            r = ty_range(y.a[0])
            if not r or lo is None or hi is None or lo < r[0] or hi > r[1]:
                break
            y = y.a[1]
        if isinstance(y, T) and y.op == "sym" and isinstance(y.a[0], tuple) and y.a[0][0] == "toint":
            #the number it was converted from
            return y.a[0][1]
        return T("Int", x, ty)
    return f


def h_int_try(ty):
    def f(I, st, a, c):
        v = L(I, st, a[0])
        if not (isinstance(v, T)):
            return None
        if v.op == "Int":
            x, src = v.a
            if src == ty:
                return ok(x)
            r = ty_range(ty)
            if is_int(x):
                return ok(x) if r[0] <= x <= r[1] else err(ise(I, "TooBigToFit"))
            y = I.cast(st, "IntToInt", x, src, ty)
            if isinstance(x, T) and x.op == "cast" and len(x.a) > 2 and x.a[2] == ty and ty_range(x.a[0]) and ty_range(x.a[0])[0] <= r[0] and r[1] <= ty_range(x.a[0])[1]:
                y = x.a[1]
            out = []
            lo, hi = I.bounds(st, x)
            s1 = st.copy()
            if I.assume_cmp(s1, "Ge", x, r[0]) and I.assume_cmp(s1, "Le", x, r[1]):
                out.append((s1, ok(y)))
            for op, b, t in (("Lt", r[0], lo is None or lo < r[0]), ("Gt", r[1], hi is None or hi > r[1])):
                if t:
                    s2 = st.copy()
                    if I.assume_cmp(s2, op, x, b):
                        out.append((s2, err(ise(I, "TooBigToFit"))))
            return out
        out = []
        k = T("fits", ty, v)
        for s0, sg in int_state(I, st, v):
            if sg == 2 and ty.startswith("u"):
                out.append((s0, err(ise(I, "TooBigToFit"))))
                continue
            for s, b in I.decide(s0, k):
                x = T("sym", ("toint", v), ty)
                if not b:
                    out.append((s, err(ise(I, "TooBigToFit"))))
                elif I.assume_cmp(s, "Lt" if sg == 2 else "Ge", x, 0):
                    out.append((s, ok(x)))
        return out
    return f


def int_state(I, st, v):
    """[(state, signed state index)] an Integer is written with"""
    if v.op == "Int":
        x, ty = v.a
        if ty.startswith("u"):
            return [(st, 0)]
        if is_int(x):
            return [(st, 1 if x >= 0 else 2)]
        out = []
        s1, s2 = st.copy(), st.copy()
        if I.assume_cmp(s1, "Ge", x, 0):
            out.append((s1, 1))
        if I.assume_cmp(s2, "Lt", x, 0):
            out.append((s2, 2))
        return out
    out = []
    d = T("discr", T("ss", v))
    for k in range(3):
        s = st.copy()
        if I.assume(s, d, k):
            out.append((s, k))
    return out


def h_int_ser(I, st, a, c):
    v = L(I, st, a[0])
    if not isinstance(v, T):
        return None
    return [(s, tup(Agg(SS, k, ()), Seq([Chunk("int", v)]))) for s, k in int_state(I, st, v)]


def cursor_of(I, st, r):
    v = L(I, st, r)
    if isinstance(v, Agg) and v.tag == CUR and isinstance(v.f[0], Seq) and is_int(v.f[1]):
        return v
    return None


def cur_set(I, st, r, v, pos):
    f = list(v.f)
    f[1] = pos
    I.store(st, r, Agg(v.tag, v.var, f))


def h_int_deser(I, st, a, c):
    ss, r = L(I, st, a[0]), a[1]
    cu = cursor_of(I, st, r)
    if cu is None:
        return None
    items, pos = cu.f[0].items, cu.f[1]
    if pos >= len(items):
        return err(ise(I, "NotEnoughBytes"))
    it = items[pos]
    if not (isinstance(it, Chunk) and it.kind == "int"):
        if isinstance(it, Chunk):
            cur_set(I, st, r, cu, pos + 1)
            return ok(T("misread", "integer", it))
        return None
    v = it.x
    out = []
    for s, k, in [(s, k) for s, _, k in I.variants(st, ss, n=3)]:
        for s2, w in int_state(I, s, v):
            cur_set(I, s2, r, cu, pos + 1)
            if k == w:
                x = v
            elif {k, w} == {0, 1}:
                if k == 1:
                    lo, hi = I.bounds(s2, v.a[0]) if v.op == "Int" else (None, None)
                    if v.op == "Int" and is_int(v.a[0]):
                        lo = hi = v.a[0]
                    if hi is None or hi > (1 << 127) - 1:
                        x = T("misread", "unsigned integer as signed", v)
                    else:
                        x = v
                else:
                    x = v
            else:
                x = T("misread", "sign of integer", v, k)
            out.append((s2, ok(x)))
    return out


def h_int_neg(want):
    def f(I, st, a, c):
        v = L(I, st, a[0])
        if not isinstance(v, T):
            return None
        return [(s, int((k == 2) == want)) for s, k in int_state(I, st, v)]
    return f


def h_int_eq(I, st, a, c):
    v, w = L(I, st, a[0]), L(I, st, a[1])
    if isinstance(v, T) and isinstance(w, T):
        if v == w:
            return 1
        return T("Eq", *sorted((v, w), key=okey))
    return None


def int_hooks():
    h = {}
    for t in INTTYS:
        h[f"<{INT} as core::convert::From<{t}>>::from"] = h_int_from(t)
        h[f"sourisdb::types::integer::<impl core::convert::TryFrom<{INT}> for {t}>::try_from"] = h_int_try(t)
    h[f"{INT}::ser"] = h_int_ser
    h[f"{INT}::deser"] = h_int_deser
    h[f"{INT}::is_negative"] = h_int_neg(True)
    h[f"{INT}::is_positive"] = h_int_neg(False)
    h[f"<{INT} as core::cmp::PartialEq>::eq"] = h_int_eq
    return h


# ---- Cursor over a stream of known items -----------------------------------------------------------------------------
def take(I, st, cu, n):
    """the index after the next n bytes, "short" when the stream ends first, or None when that is not known"""
    items, p = cu.f[0].items, cu.f[1]
    n = I.simp(st, n)
    left = I.linear(n)
    while True:
        l = {t: k for t, k in left.items() if k}
        if not l:
            return p
        if list(l) == [1] and l[1] < 0:
            return None
        if p >= len(items):
            m = {**left, 1: left.get(1, 0) - 1}
            if I.nonneg(st, m):
                return "short"
            #nothing left to read: only right when the count is zero
            return None
        it = items[p]
        ln = I.chunk_len(it) if isinstance(it, Chunk) else 1
        I.linear(ln, -1, left)
        p += 1


def known_short(I, st, cu, n):
    """whether fewer than n bytes are certainly left"""
    rest = Seq(cu.f[0].items[cu.f[1]:])
    ln = I.seq_len(st, rest)
    d = I.linear(I.simp(st, n))
    I.linear(ln, -1, d)
    d[1] = d.get(1, 0) - 1
    return I.nonneg(st, d)


def h_read(move, exact):
    def f(I, st, a, c):
        cu = cursor_of(I, st, a[0])
        if cu is None:
            return None
        if exact:
            n = None
            for i in (1, 2, 0):
                aa = c.fc.get("a", [])
                if i < len(aa) and isinstance(aa[i], list):
                    n = aa[i]
            t = c.dest_ty
            T_ = c.frame.fn.types
            try:
                t = T_[t["a"][0]]
                t = T_[t["t"]] if t["k"] == "ref" else t
                n = t["n"]
            except (KeyError, IndexError, TypeError):
                n = None
            if n is None:
                #the array length is a generic of the caller
                st.note("read_exact of unknown length")
                return [(st, NONE), (st.copy(), some(I.fresh("read")))]
        else:
            n = a[1]
        p = take(I, st, cu, n)
        if p == "short" or p is None and known_short(I, st, cu, n):
            return NONE
        if p is None:
            st.note("read that does not line up with what was written")
            st.ev("misaligned", cu.f[0].items[cu.f[1]:cu.f[1] + 3], n, c.frame.fn.path, st.copy())
            cur_set(I, st, a[0], cu, len(cu.f[0].items)) if move else None
            return some(T("misread", "bytes", n, Seq(cu.f[0].items[cu.f[1]:])))
        got = Seq(cu.f[0].items[cu.f[1]:p])
        if move:
            cur_set(I, st, a[0], cu, p)
        return some(got)
    return f


def h_next(I, st, a, c):
    cu = cursor_of(I, st, a[0])
    if cu is None:
        return None
    items, p = cu.f[0].items, cu.f[1]
    while p < len(items) and isinstance(items[p], Chunk) and I.chunk_len(items[p]) == 0:
        p += 1
    if p >= len(items):
        return NONE
    it = items[p]
    if isinstance(it, Chunk):
        st.ev("misaligned", (it,), 1, c.frame.fn.path)
        if it.kind in ("int", "node", "val"):
            #the first byte of something longer
            f = T("sym", ("first", it), "u8")
            if it.kind == "int":
                x = it.x.a[0] if isinstance(it.x, T) and it.x.op == "Int" else None
                lo, hi = I.bounds(st, x) if x is not None else (None, None)
                if lo is not None and lo > 0 and f not in st.iv:
                    #only zero is written with a first byte of zero (C33)
                    I.assume_cmp(st, "Ge", f, 1)
                I.store(st, a[0], Agg(cu.tag, cu.var, [Seq(list(items[:p]) + [f, Chunk("restof", T("restof", it.x))] + list(items[p + 1:])), p + 1, *cu.f[2:]]))
            return some(f)
        return some(T("misread", "byte", it))
    cur_set(I, st, a[0], cu, p + 1)
    return some(it)


def h_remaining(I, st, a, c):
    cu = cursor_of(I, st, a[0])
    if cu is None:
        return None
    return I.seq_len(st, Seq(cu.f[0].items[cu.f[1]:]))


def h_finished(I, st, a, c):
    cu = cursor_of(I, st, a[0])
    if cu is None:
        return None
    return int(cu.f[1] >= len(cu.f[0].items))


def h_rest(move):
    def f(I, st, a, c):
        cu = cursor_of(I, st, a[0])
        if cu is None:
            return None
        if move:
            cur_set(I, st, a[0], cu, len(cu.f[0].items))
        return Seq(cu.f[0].items[cu.f[1]:])
    return f


def h_move(k):
    def f(I, st, a, c):
        cu = cursor_of(I, st, a[0])
        if cu is None:
            return None
        n = I.simp(st, a[1])
        if k > 0:
            p = take(I, st, cu, n)
            if p == "short":
                return 0
        else:
            p = cu.f[1]
            while is_int(n) and n > 0 and p > 0 and not isinstance(cu.f[0].items[p - 1], Chunk):
                p -= 1
                n -= 1
            if not (is_int(n) and n == 0):
                p = None
            its = cu.f[0].items
            if p is not None and p + 1 < len(its):
                x, y = its[p], its[p + 1]
                if isinstance(x, T) and x.op == "sym" and isinstance(x.a[0], tuple) and x.a[0][0] == "first" and isinstance(y, Chunk) and y.kind == "restof" \
                        and y.x.a[0] == x.a[0][1].x:
                    #back in front of a number of which one byte had been read
                    I.store(st, a[0], Agg(cu.tag, cu.var, [Seq(list(its[:p]) + [x.a[0][1]] + list(its[p + 2:])), p, *cu.f[2:]]))
                    return 1
        if p is None:
            st.note("cursor move that does not line up with what was written")
            return I.fresh("moved")
        cur_set(I, st, a[0], cu, p)
        return 1
    return f


def cursor_hooks():
    C = f"{CUR}::<'a, T>::"
    return {
        C + "read": h_read(True, False), C + "peek": h_read(False, False),
        C + "read_exact": h_read(True, True), C + "peek_exact": h_read(False, True),
        C + "items_remaining": h_remaining, C + "is_finished": h_finished,
        C + "read_remaining": h_rest(True), C + "peek_remaining": h_rest(False),
        f"<{CUR}<'a, T> as core::convert::AsRef<[T]>>::as_ref": h_rest(False),
        C + "move_forwards": h_move(1), C + "move_backwards": h_move(-1),
        f"<{CUR}<'a, T> as core::iter::traits::iterator::Iterator>::next": h_next,
    }


def cursor(items, pos=0):
    return Agg(CUR, 0, (items if isinstance(items, Seq) else Seq(items), pos))


# ---- Bits and Huffman tables as units --------------------------------------------------------------------------------
HUF = "sourisdb::utilities::huffman::Huffman"


def h_encode_string(I, st, a, c):
    h, s = I.deep(st, a[0]), I.deep(st, a[1])
    if isinstance(h, T):
        out = []
        for st2, b in I.decide(st, T("encodable", h, s)):
            out.append((st2, ok(T("enc", h, s)) if b else err(T("unencodable"))))
        return out
    return None


def h_decode_string(I, st, a, c):
    h, b = I.deep(st, a[0]), I.deep(st, a[1])
    if isinstance(b, T) and b.op == "enc":
        if b.a[0] == h:
            s = b.a[1]
            return ok(s if isinstance(s, Str) else Str((s,)))
    if isinstance(h, T) or isinstance(b, T):
        return [(st, err(T("undecodable", b))), (st.copy(), ok(T("misread", "bits", b, h)))]
    return None


def h_bits_ser(I, st, a, c):
    v = I.deep(st, a[0])
    if isinstance(v, T):
        return Seq([Chunk("bits", v)])
    return None


def misaligned(I, st, r, cu, what):
    """something else than what is to be read comes next: reading it fails or gives nonsense"""
    s2 = st.copy()
    it = cu.f[0].items[cu.f[1]:]
    cur_set(I, s2, r, cu, len(cu.f[0].items))
    return [(st, err(T("undecodable", what))), (s2, ok(T("misread", what, Seq(it))))]


def h_bits_deser(I, st, a, c):
    cu = cursor_of(I, st, a[0])
    if cu is None:
        return None
    if cu.f[1] >= len(cu.f[0].items):
        return err(T("undecodable", "nothing"))
    it = cu.f[0].items[cu.f[1]]
    if isinstance(it, Chunk) and it.kind == "bits":
        cur_set(I, st, a[0], cu, cu.f[1] + 1)
        return ok(it.x)
    return misaligned(I, st, a[0], cu, "bit string")


def h_huf_ser(I, st, a, c):
    v = I.deep(st, a[0])
    if isinstance(v, T):
        return Seq([Chunk("huf", v)])
    return None


def h_huf_deser(I, st, a, c):
    cu = cursor_of(I, st, a[0])
    if cu is None:
        return None
    if cu.f[1] >= len(cu.f[0].items):
        return err(T("undecodable", "nothing"))
    it = cu.f[0].items[cu.f[1]]
    if isinstance(it, Chunk) and it.kind == "huf":
        cur_set(I, st, a[0], cu, cu.f[1] + 1)
        return ok(it.x)
    return misaligned(I, st, a[0], cu, "huffman table")


def huffman_hooks():
    return {
        f"{HUF}::<char>::encode_string": h_encode_string, f"{HUF}::<char>::decode_string": h_decode_string,
        f"{BITS}::ser": h_bits_ser, f"{BITS}::deser": h_bits_deser,
        f"{HUF}::<char>::ser": h_huf_ser, f"{HUF}::<char>::deser": h_huf_deser,
    }


def codec_hooks():
    h = {}
    h.update(int_hooks())
    h.update(cursor_hooks())
    h.update(huffman_hooks())
    return h


# ---- compressors as units --------------------------------------------------------------------------------------------
BIN = "sourisdb::types::binary::BinaryData"
BC = "sourisdb::types::binary::BinaryCompression"
BSE = "sourisdb::types::binary::BinarySerError"
COMPRESSORS = {"rle": ("sourisdb::types::binary::rle::rle", "sourisdb::types::binary::rle::un_rle"),
               "lz": ("sourisdb::types::binary::lz::lz", "sourisdb::types::binary::lz::un_lz"),
               "huffman": ("sourisdb::types::binary::huffman::huffman", "sourisdb::types::binary::huffman::un_huffman")}


def h_compress(name):
    def f(I, st, a, c):
        v = I.deep(st, a[0])
        return Seq([Chunk("packed", (name, v))])
    return f


def h_decompress(name):
    def f(I, st, a, c):
        cu = cursor_of(I, st, a[0])
        if cu is None:
            return [(st, err(T("undecompressable"))), (st.copy(), ok(T("misread", name + " decompressor given other data", I.deep(st, a[0]))))]
        if cu.f[1] >= len(cu.f[0].items):
            return err(T("undecompressable"))
        it = cu.f[0].items[cu.f[1]]
        if isinstance(it, Chunk) and it.kind == "packed":
            cur_set(I, st, a[0], cu, cu.f[1] + 1)
            if it.x[0] == name:
                v = it.x[1]
                return ok(v if isinstance(v, Seq) else Seq([Chunk("blob", v)]))
            return ok(T("misread", name + " decompressor given " + it.x[0] + " data", it))
        s2 = st.copy()
        cur_set(I, s2, a[0], cu, len(cu.f[0].items))
        return [(st, err(T("undecompressable"))), (s2, ok(T("misread", name + " decompressor given other data", cu.f[0])))]
    return f


def compressor_hooks():
    h = {}
    for n, (c, d) in COMPRESSORS.items():
        h[c], h[d] = h_compress(n), h_decompress(n)
    return h
