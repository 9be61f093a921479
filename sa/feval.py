"""Evaluates floating-point terms at one representative of a region, with the rounding of f32 and f64."""
import math, struct
from vals import *
from interp import ty_range


class NoEval(Exception):
    pass


def r32(x):
    if math.isnan(x) or math.isinf(x):
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def rnd(x, ty):
    return r32(x) if ty == "f32" else x


def i2f(n, ty):
    """nearest float, ties to even, of an integer of any size"""
    p, emax = (24, 128) if ty == "f32" else (53, 1024)
    if n == 0:
        return 0.0
    s, a = (-1 if n < 0 else 1), abs(n)
    e = a.bit_length()
    if e > p:
        sh = e - p
        q, r = a >> sh, a & ((1 << sh) - 1)
        h = 1 << (sh - 1)
        if r > h or r == h and q & 1:
            q += 1
        a = q << sh
    if a.bit_length() > emax:
        return s * math.inf
    return s * float(a)


def const(bits, ty):
    if ty == "f32":
        return struct.unpack("<f", struct.pack("<I", bits & 0xFFFFFFFF))[0]
    return struct.unpack("<d", struct.pack("<Q", bits & (1 << 64) - 1))[0]


def rround(x):
    if math.isnan(x) or math.isinf(x):
        return x
    f = math.floor(abs(x))
    if abs(x) - f >= 0.5:
        f += 1
    return math.copysign(float(f), x)


def trunc(x):
    return x if math.isnan(x) or math.isinf(x) else math.copysign(float(math.trunc(x)), x)


def floor(x):
    return x if math.isnan(x) or math.isinf(x) else (math.copysign(0.0, x) if x == 0 else float(math.floor(x)))


def ev(t, env):
    if isinstance(t, (int, float)):
        return t
    if t in env:
        return env[t]
    if not isinstance(t, T):
        raise NoEval(t)
    r = ev1(t, env)
    env[t] = r
    return r


def ev1(t, env):
    op = t.op
    E = lambda i: ev(t.a[i], env)
    if op == "fconst":
        return const(t.a[0], t.a[1])
    if op == "i2f":
        return i2f(E(1), t.a[0])
    if op == "f2f":
        return rnd(E(1), t.a[0])
    if op == "f2i":
        x = E(1)
        lo, hi = ty_range(t.a[0])
        if math.isnan(x):
            return 0
        if math.isinf(x):
            return hi if x > 0 else lo
        return max(lo, min(hi, math.trunc(x)))
    if op in ("fAdd", "fSub", "fMul", "fDiv", "fRem"):
        a, b, ty = E(0), E(1), t.a[2]
        try:
            if op == "fAdd":
                r = a + b
            elif op == "fSub":
                r = a - b
            elif op == "fMul":
                r = a * b
            elif op == "fDiv":
                r = a / b if b else (math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b))
            else:
                r = math.fmod(a, b) if b and not math.isinf(a) else math.nan
        except (OverflowError, ValueError):
            raise NoEval(t)
        return rnd(r, ty)
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        a, b = E(0), E(1)
        return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
    if op == "notb":
        return 1 - E(0)
    if op in ("and", "or"):
        return E(0) & E(1) if op == "and" else E(0) | E(1)
    if op == "Neg":
        return -E(0)
    if op == "cast":
        x = E(1)
        if not isinstance(x, int):
            raise NoEval(t)
        lo, hi = ty_range(t.a[0])
        x &= hi - lo
        return x - (hi - lo + 1) if x > hi else x
    if op == "fpred":
        x = E(1)
        m = t.a[0]
        if m == "is_finite":
            return int(math.isfinite(x))
        if m == "is_nan":
            return int(math.isnan(x))
        if m == "is_infinite":
            return int(math.isinf(x))
        if m == "is_sign_negative":
            return int(math.copysign(1, x) < 0)
        if m == "is_sign_positive":
            return int(math.copysign(1, x) > 0)
    if op == "fcall":
        m = t.a[0]
        x = E(1)
        if m == "abs":
            return abs(x)
        if m == "round":
            return rround(x)
        if m == "trunc":
            return trunc(x)
        if m == "floor":
            return floor(x)
        if m == "ceil":
            return x if math.isnan(x) or math.isinf(x) else (math.copysign(0.0, x) if x == 0 else float(math.ceil(x)))
        if m == "fract":
            return x - trunc(x) if math.isfinite(x) else math.nan
        if m == "signum":
            return x if math.isnan(x) else math.copysign(1.0, x)
        try:
            if m in ("cos", "sin", "tan", "sqrt", "atan", "asin", "acos"):
                if math.isinf(x) and m in ("cos", "sin", "tan") or m == "sqrt" and x < 0:
                    return math.nan
                return getattr(math, m)(x)
            if m in ("hypot", "atan2", "copysign"):
                return getattr(math, m)(x, E(2))
            if m in ("powi", "powf"):
                return math.pow(x, E(2))
            if m == "mul_add":
                return x * E(2) + E(3)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
        if m in ("min", "max"):
            y = E(2)
            if math.isnan(x):
                return y
            if math.isnan(y):
                return x
            return min(x, y) if m == "min" else max(x, y)
    raise NoEval(t)


def nextafter(x, d, ty):
    if ty == "f64":
        return math.nextafter(x, d)
    if math.isinf(x):
        return x if (x > 0) == (d > 0) else math.copysign(const(0x7F7FFFFF, "f32"), x)
    if x == 0:
        return math.copysign(const(1, "f32"), d)
    b = struct.unpack("<i", struct.pack("<f", x))[0]
    b += 1 if (d > x) == (x > 0) else -1
    return struct.unpack("<f", struct.pack("<i", b))[0]
