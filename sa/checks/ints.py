"""Stored integers, shared by C10, C12, C33: every state of an Integer that a machine integer can be turned into."""
from lib import *
from souris import *


def frm(t):
    return f"<{INT} as core::convert::From<{t}>>::from"


def tryfrm(t):
    return f"sourisdb::types::integer::<impl core::convert::TryFrom<{INT}> for {t}>::try_from"


def interp(ctx, **kw):
    I = ctx.interp(cursor_hooks(), **kw)
    I.merge = True
    return I


def stored(ctx, I, t):
    """[(state, number, Integer)] for an arbitrary number of one machine type"""
    x = T("sym", "n", t)
    out = []
    for st, v in I.run(frm(t), [x], State()):
        ctx.paths += 1
        out.append((st, x, v))
    return out
