"""C05: the directions recorded while encoding are the ones the decoder takes, and trees are read back as written."""
import itertools
from lib import *
from souris import *
import c30

NODEDEPTH = 32
DEEP = 132
ENC, DEC, NEWH, BOTH = (f"{HUF}::<T>::" + m for m in ("encode", "decode", "new", "new_and_encode"))
ENGLISH = f"{HUF}::<char>::new_with_english_frequencies"


def shapes(n):
    """every full binary tree with n leaves"""
    if n == 1:
        return [None]
    return [(l, r) for i in range(1, n) for l in shapes(i) for r in shapes(n - i)]


def fill(shape, leaves):
    it = iter(leaves)

    def go(s):
        return next(it) if s is None else (go(s[0]), go(s[1]))
    return go(shape)


def leaves_of(t):
    return leaves_of(t[0]) + leaves_of(t[1]) if isinstance(t, tuple) else [t]


def stream(t, ty):
    """the serialised form of a tree"""
    if isinstance(t, tuple):
        return [0] + stream(t[0], ty) + stream(t[1], ty)
    return [1, t] if ty == "u8" else [t + 1]


def show(t):
    return f"({show(t[0])} {show(t[1])})" if isinstance(t, tuple) else str(t)


class Tester:
    def __init__(self, ctx, ty, hooks=None):
        self.ctx, self.ty = ctx, ty
        self.I = ctx.interp(hooks or cursor_hooks())
        self.bits = {}

    def sub(self, fn):
        g = self.ctx.program().fns[fn].j.get("gen") or []
        return {n: self.ty if n == "T" else f"alloc::vec::into_iter::IntoIter<{self.ty}>" for n in g}

    def run(self, fn, args, st):
        for s, r in self.I.run(fn, args, st.copy(), self.sub(fn)):
            self.ctx.paths += 1
            yield s, r if isinstance(r, Stop) else self.I.load(s, r)

    def verdict(self, key, desc, s, r, good, what):
        """judges a result that should satisfy good(r) -> (ok, why)"""
        if isinstance(r, Stop):
            self.ctx.ob(key, False if r.kind == "panic" else None, desc, f"{what}: does not return: {r}")
            return False
        ok_, why = good(s, r)
        if ok_ is False and (any("unmodelled" in q for q in s.notes) or opaque(r)):
            ok_ = None
        self.ctx.ob(key, ok_, desc, f"{what}: {why}" if ok_ is not True else "")
        return ok_ is True

    def is_seq(self, want):
        def good(s, r):
            if not is_ok(r):
                return False, f"refused: {short(r)}"
            return same(self.I, s, Seq(list(want)), r.f[0])
        return good

    def refused(self, s, r):
        return is_err(r), f"gives {short(r)}"

    def bit_string(self, xs):
        """a state and a value holding these bits, made with the public operations"""
        xs = tuple(xs)
        st, r = c30.of(self.ctx, self.I, xs)
        return st, self.I.load(st, r)

    def codes(self, key, hr, st, syms):
        """what each symbol is encoded as, as a tuple of bits"""
        out = {}
        for x in syms:
            for s, r in self.run(ENC, [hr, Seq([x])], st):
                if not is_ok(r):
                    continue
                b = as_bits(self.ctx, self.I, s, r.f[0])
                if b is None:
                    return None
                out[x] = b
        return out if len(out) == len(syms) else None

    def sequences(self, key, hr, st, seqs, decs=None):
        desc = "decoding what was encoded gives back the symbols"
        for q in seqs:
            for s, r in self.run(ENC, [hr, Seq(list(q))], st):
                if not self.verdict(key, desc, s, r, lambda s, r: (is_ok(r), f"refused: {short(r)}"), f"encoding {list(q)}"):
                    continue
                for h2 in decs or [hr]:
                    for s2, d in self.run(DEC, [h2, r.f[0]], s):
                        self.verdict(key, desc, s2, d, self.is_seq(q), f"{list(q)} encoded as {short(r.f[0])}, then decoded")

    def strings(self, key, hr, st, codes, n):
        """decoding every bit string of up to n bits"""
        one = len(codes) == 1
        for k in range(n + 1):
            for xs in itertools.product((0, 1), repeat=k):
                want, rest = parse(xs, codes)
                if one and rest:
                    continue
                s0, b = self.bit_string(xs)
                s1 = st.copy()
                s1.cells.update({c: v for c, v in s0.cells.items() if c not in s1.cells})
                name = "".join(map(str, xs))
                for s2, d in self.run(DEC, [hr, b], s1):
                    if rest:
                        self.verdict(key + ":unfinished", "bits that do not end on a symbol are an error", s2, d, self.refused, f"decoding {name!r}, codes {codes}")
                    else:
                        self.verdict(key + ":bits", "bits are decoded by the directions recorded while encoding", s2, d, self.is_seq(want), f"decoding {name!r}, codes {codes}")


def parse(xs, codes):
    inv = {c: x for x, c in codes.items()}
    out, cur = [], ()
    for b in xs:
        cur += (b,)
        if cur in inv:
            out.append(inv[cur])
            cur = ()
    return out, cur


def as_bits(ctx, I, st, v):
    """the bits of a bit string whose contents are known"""
    for s, r in I.run(c30.TOVEC, [v], st.copy()):
        r = I.load(s, r)
        if isinstance(r, Seq) and all(is_int(I.simp(s, x)) for x in r.items if not isinstance(x, Chunk)) and not r.chunks():
            return tuple(I.simp(s, x) for x in r.items)
    return None


def trees(ctx, ty, deep):
    t = Tester(ctx, ty)
    I = t.I
    base = 65
    todo = [fill(sh, range(base, base + n)) for n in range(1, 6 if deep else 5) for sh in shapes(n)]
    for d in (NODEDEPTH, DEEP):
        chain = base
        for i in range(1, d):
            chain = (chain, base + i) if i % 2 else (base + i, chain)
        todo.append(chain)
    t.I.depth_max = max(t.I.depth_max, 3 * DEEP)
    for tree in todo:
        ls = leaves_of(tree)
        big = len(ls) > 6
        key = f"{ty} tree {show(tree) if not big else f'of depth {len(ls) - 1}'}"
        enc = stream(tree, ty)

        def one():
            st = State()
            cu = I.cell(st, cursor(enc + [7]))
            desc = "a serialised tree is read back and written again as the same bytes"
            for s, h in t.run(f"{HUF}::<{ty}>::deser", [Ref(cu, ())], st):
                if not t.verdict(key + ":serialised", desc, s, h, lambda s, r: (is_ok(r), f"refused: {short(r)}"), f"reading {enc}"):
                    continue
                pos = s.cells[cu].f[1]
                ctx.ob(key + ":serialised", pos == len(enc) if is_int(pos) else None, desc, f"reading {enc} followed by another byte stops at {pos}")
                hr = Ref(I.cell(s, h.f[0]), ())
                for s2, w in t.run(f"{HUF}::<{ty}>::ser", [hr], s):
                    t.verdict(key + ":serialised", desc, s2, w, lambda s, r: same(I, s, Seq(enc), r), f"read from {enc}, written again")
                if big:
                    seqs = [ls if len(ls) <= NODEDEPTH else ls[:2] + ls[::32] + ls[-2:], [ls[0], ls[-1], ls[0]]]
                else:
                    seqs = [q for k in range(3) for q in itertools.product(ls, repeat=k)] + [ls + ls[::-1]]
                t.sequences(key, hr, s, seqs)
                for s2, r in t.run(ENC, [hr, Seq([ls[0], 200, ls[-1]])], s):
                    t.verdict(key + ":unknown symbol", "a symbol the tree does not have cannot be encoded", s2, r, t.refused, f"encoding {[ls[0], 200, ls[-1]]}")
                codes = t.codes(key, hr, s, ls)
                if codes is None:
                    ctx.ob(key + ":bits", None, "bits are decoded by the directions recorded while encoding", "the codes are not known")
                elif not big:
                    t.strings(key, hr, s, codes, max(map(len, codes.values())) + 1)
                else:
                    deepest = max(codes.values(), key=len)
                    for xs in (deepest[:-1], deepest[:1], deepest + deepest[:-1]):
                        s0, b = t.bit_string(xs)
                        s1 = s.copy()
                        s1.cells.update({c: v for c, v in s0.cells.items() if c not in s1.cells})
                        for s2, d in t.run(DEC, [hr, b], s1):
                            t.verdict(key + ":unfinished", "bits that do not end on a symbol are an error", s2, d, t.refused, f"decoding {len(xs)} bits of the deepest symbol")
        guard(ctx, key, "huffman tree", one)


def words(n):
    """sequences over an alphabet in order of first use"""
    out = [()]
    for _ in range(n):
        out = [w + (x,) for w in out for x in range(max(w, default=-1) + 2)]
    return out


def built(ctx, ty, deep):
    """trees made from data"""
    t = Tester(ctx, ty)
    I = t.I
    key = f"{ty} tree built from data"

    def one():
        for s, r in t.run(NEWH, [Seq([])], State()):
            t.verdict(key + ":empty", "no tree is made from nothing", s, r, t.refused, "new of no symbols")
        datas = [w for n in range(1, 7 if deep else 6) for w in words(n)] + [(0,) * 8 + (1,) * 4 + (2,) * 2 + (3,), tuple(range(9)), (0, 1) * 5 + (2,) * 5 + (3,) * 11]
        for w in datas:
            data = [65 + x for x in w]
            for s, h in t.run(NEWH, [Seq(data)], State()):
                if not t.verdict(key, "a tree can be made from any data", s, h, lambda s, r: (is_ok(r), f"refused: {short(r)}"), f"new of {data}"):
                    continue
                hr = Ref(I.cell(s, h.f[0]), ())
                t.sequences(key, hr, s, [data, data[::-1]])
            for s, h in t.run(BOTH, [Seq(data)], State()) if BOTH in ctx.program().fns and len(data) < 5 else ():
                desc = "new_and_encode gives the tree and the encoded data"
                if not t.verdict(key + ":new_and_encode", desc, s, h, lambda s, r: (is_ok(r), f"refused: {short(r)}"), f"of {data}"):
                    continue
                hv, bv = I.load(s, h.f[0]).f
                for s2, d in t.run(DEC, [Ref(I.cell(s, hv), ()), bv], s):
                    t.verdict(key + ":new_and_encode", desc, s2, d, t.is_seq(data), f"of {data}, then decoded")
    guard(ctx, key, "huffman tree", one)


def symbolic(ctx, ty):
    """trees with unknown symbols at the leaves are read back as written"""
    t = Tester(ctx, ty, {**int_hooks(), **cursor_hooks()})
    I = t.I
    key = f"{ty} tree of unknown symbols"
    desc = "the serialised form of a tree is read back with the same symbols on the same sides"

    def one():
        a, b, c = (T("sym", x, ty) for x in "abc")
        for data in ([a], [a, b], [a, a, b], [a, b, c, a]):
            st = State()
            for x, y in itertools.combinations((a, b, c), 2):
                I.assume_cmp(st, "Ne", x, y)
            for s, h in t.run(NEWH, [Seq(data)], st):
                if not is_ok(h):
                    ctx.ob(key, None, desc, f"new of {data}: {short(h)}")
                    continue
                hr = Ref(I.cell(s, h.f[0]), ())
                for s2, w in t.run(f"{HUF}::<{ty}>::ser", [hr], s):
                    if not isinstance(w, Seq):
                        ctx.ob(key, False if isinstance(w, Stop) and w.kind == "panic" else None, desc, f"written as {short(w)}")
                        continue
                    s3 = s2.copy()
                    cu = I.cell(s3, cursor(list(w.items) + [Chunk("tail", T("sym", "tail"))]))
                    for s4, h2 in t.run(f"{HUF}::<{ty}>::deser", [Ref(cu, ())], s3):
                        def good(s, r):
                            if not is_ok(r):
                                return False, f"refused: {short(r)}"
                            if s.cells[cu].f[1] != len(w.items):
                                return False, f"stops at {s.cells[cu].f[1]} of {len(w.items)}"
                            return same(I, s, h.f[0], r.f[0])
                        t.verdict(key, desc, s4, h2, good, f"{data} written as {short(w)} and read")
    guard(ctx, key, desc, one)


def english(ctx):
    t = Tester(ctx, "char")
    I = t.I
    key = "english tree"

    def one():
        for s, h in t.run(ENGLISH, [], State()):
            if isinstance(h, Stop):
                ctx.ob(key, False if h.kind == "panic" else None, "the built-in tree can be made", str(h))
                continue
            hr = Ref(I.cell(s, h), ())
            pangram = "The quick brown fox jumps over the lazy dog. (1234567890)"
            t.sequences(key, hr, s, [[ord(c) for c in pangram]] + [[ord(c)] for c in sorted(set(pangram))])
            for s2, w in t.run(f"{HUF}::<char>::ser", [hr], s):
                desc = "the built-in tree is read back as it was written"
                if not isinstance(w, Seq):
                    ctx.ob(key + ":serialised", None, desc, short(w))
                    continue
                s3 = s2.copy()
                cu = I.cell(s3, cursor(list(w.items)))
                for s4, h2 in t.run(f"{HUF}::<char>::deser", [Ref(cu, ())], s3):
                    def good(s, r):
                        if not is_ok(r):
                            return False, f"refused: {short(r)}"
                        return same(I, s, h, r.f[0])
                    t.verdict(key + ":serialised", desc, s4, h2, good, "written and read")
    guard(ctx, key, "huffman tree", one)


def run(ctx):
    P = ctx.program()
    deep = ctx.thorough
    ctx.explanation = ("The huffman code is interpreted abstractly on every tree shape with up to four leaves (five in the thorough tier) and chains of depth 31 and 131: reading and writing the "
                       "tree, encoding sequences of its symbols, and decoding every short bit string. The code each symbol gets while encoding must lead the decoder to that symbol. "
                       "Trees are also made from data and, with unknown symbols at the leaves, written and read back.")
    ctx.rule("decode(encode(x)) = x; decode(bits) follows the codes that encode assigns and refuses bits that end inside one; deser(ser(tree)) = tree")
    ctx.assumptions += ["the code looks at symbols only through equality, hashing and cloning, so distinct constants stand for any symbols",
                        "the map's own iteration order, which decides ties, is taken to be insertion order; every shape it could lead to is among the enumerated trees",
                        "for larger trees the same recursion is followed; shapes beyond the bound are not enumerated"]
    ctx.floor = 5
    if not ctx.need(ENC, DEC, NEWH, *[f"{HUF}::<{ty}>::{m}" for ty in ("u8", "char") for m in ("ser", "deser")]):
        return
    for ty in ("u8", "char"):
        trees(ctx, ty, deep)
        built(ctx, ty, deep)
        symbolic(ctx, ty)
    if ENGLISH in P.fns:
        english(ctx)
