"""C27: the package's shanten calculator against the distance defined by the game."""
import functools

import numpy as np

from engine.core import And, Or, Not, Implies, Iff, ite, Sum, is_sym
from engine.runner import harness
from .mask import make_arr

MODS = ("utils.shanten", "utils.constants")
FAR = 99
YAOCHU = (0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33)
FIVES = (4, 13, 22)


@functools.lru_cache(None)
def suit_cost(c, runs):
    """{(melds, pairs): tiles missing from c} over everything the suit may become, no
    kind more than four times"""
    st = {(0, 0, 0, 0): 0}
    n = len(c)
    for i in range(n):
        nx = {}
        for (a, b, m, p), v in st.items():
            for s in range(5 if runs and i + 2 < n else 1):
                for t in (0, 1):
                    for q in (0, 1):
                        w = a + b + s + 3 * t + 2 * q
                        if w > 4 or m + s + t > 4 or p + q > 1:
                            continue
                        k = (s, a, m + s + t, p + q)
                        nx[k] = min(nx.get(k, FAR), v + max(0, w - c[i]))
        st = nx
    out = {}
    for (a, b, m, p), v in st.items():
        if not a and not b:
            out[(m, p)] = min(out.get((m, p), FAR), v)
    return out


def low(a, b):
    return ite(a <= b, a, b)


def join(x, y, need):
    out = {}
    for (m, p), v in x.items():
        for (n, q), w in y.items():
            k = (m + n, p + q)
            if k[0] <= need and k[1] <= 1:
                out[k] = low(out[k], v + w) if k in out else v + w
    return out


def short(n, c):
    """tiles missing to have n of a kind held c times"""
    return ite(c >= n, 0, n - c)


def standard(counts, need):
    """distance to need melds and a pair; the suits' counts are plain numbers here, the
    honors' need not be"""
    x = {(0, 0): 0}
    for s in range(3):
        x = join(x, suit_cost(tuple(counts[9 * s:9 * s + 9]), True), need)
    for c in counts[27:]:
        x = join(x, {(0, 0): 0, (1, 0): short(3, c), (0, 1): short(2, c)}, need)
    return x[(need, 1)] - 1


def pairs_form(counts):
    pairs = Sum([ite(c >= 2, 1, 0) for c in counts])
    kinds = Sum([ite(c >= 1, 1, 0) for c in counts])
    return 6 - pairs + ite(kinds >= 7, 0, 7 - kinds)


def orphans_form(counts):
    cs = [counts[k] for k in YAOCHU]
    return 13 - Sum([ite(c >= 1, 1, 0) for c in cs]) - ite(Or([c >= 2 for c in cs]), 1, 0)


def hand_of(ctx, free, total, fixed=(), most=4):
    """34 counts: `fixed` tiles and `total` more of the free kinds; red flags as they may be"""
    counts = [0] * 34
    for k in fixed:
        counts[k] += 1
    left = total
    for i, k in enumerate(free):
        lim = min(4 - counts[k], total, most)
        counts[k] = counts[k] + ctx.int("n%d" % k, 0, lim)
    ctx.assume(Sum(counts) == total + len(fixed))
    flags = []
    for i, k in enumerate(FIVES):
        if k in free or counts[k]:
            r = ctx.int("red%d" % i, 0, 1)
            ctx.assume(Implies(r == 1, counts[k] >= 1))
            ctx.assume(Implies(counts[k] == 4, r == 1))
            flags.append(r)
        else:
            flags.append(0)
    return counts, flags


def solve(ctx, M, counts, flags, part=None):
    ctx.pin_quotients = True
    s = M("utils.shanten").ShantenSolver()
    a = make_arr(ctx, list(counts) + list(flags))
    s._init(a)
    if part is None:
        v = s.solve()
    else:
        getattr(s, part)()
        v = s.best_shanten
    for k in range(34):
        ctx.check(a[k] == counts[k], "hand-left-as-it-was", k)
    return v


H = tuple(range(27, 34))
# hands whose suits are tiles of the fixed list and of some free kinds
SHAPES = [
    # (free suit kinds, free tiles, fixed tiles, honors)
    ((0, 1, 2, 3, 4, 5, 6, 7, 8), 4, (), 0),
    ((0, 1, 2, 3, 4, 5, 6, 7, 8), 5, (), 0),
    ((2, 3, 4, 5, 6), 4, (9, 10, 11, 22, 23, 24, 26, 26, 26, 26), 0),
    ((0, 1, 2, 3, 8), 5, (12, 13, 13, 15, 18, 18, 20, 25, 26), 0),
    ((9, 10, 11, 12), 7, (0, 1, 3, 5, 8, 8, 8), 0),
    ((18, 19, 20), 4, (0, 0, 0, 4, 4, 5, 6), 0),
    ((4, 5), 2, (13, 14, 22), 5),
    ((0, 1), 2, (), 9),
    ((7, 8), 3, (10, 11), 3),
    ((), 0, (2, 2, 3, 4), 10),
    ((), 0, (4, 4, 4, 4, 22), 8),
    ((), 0, (), 14),
    ((6, 7, 8, 9, 10, 11), 4, (), 0),
    ((16, 17, 18, 19), 5, (), 0),
    ((3, 4, 5), 8, (), 0),
    ((12, 13, 14, 15), 8, (), 0),
    ((22, 23, 24, 25, 26), 5, (24, 25, 26), 0),
]
MORE = [
    ((0, 1, 2, 3, 4, 5, 6, 7, 8), 6, (), 0),
    ((9, 10, 11, 12, 13, 14, 15, 16, 17), 4, (11, 12, 12, 13), 0),
    ((18, 19, 20, 21, 22), 11, (), 0),
    ((18, 19, 20, 21, 22), 14, (), 0),
    ((0, 1, 2, 3, 4, 5), 10, (26,), 0),
    ((0, 8, 9, 17, 18, 26), 6, (), 8),
    ((3, 4, 5, 12, 13, 14), 6, (20, 21, 24), 4),
    ((0, 1, 2, 3, 4), 8, (), 0),
    ((1, 2, 3, 4, 5, 6), 7, (6,), 0),
    ((4, 5, 6, 7, 8, 9, 10, 11), 5, (), 0),
    ((14, 15, 16, 17, 18, 19, 20), 7, (), 0),
    ((0, 1, 2, 3, 4, 5, 6, 7, 8), 5, (9, 11, 13, 14, 14, 18, 19, 22), 0),
]


@harness("C27", variants=lambda tier: [(i,) for i in range(len(SHAPES) + (len(MORE) if tier != "quick" else 0))], modules=MODS, covers=("ready", "far", "complete"), validate=40, max_branches=2000000,
         bounds=lambda tier: "the standard form, for %d families of hands of 4..14 tiles: up to %d tiles of one to nine kinds of one or two suits and up to 14 honors in any number each, beside fixed tiles" % ((len(SHAPES), 8) if tier == "quick" else (len(SHAPES + MORE), 14)))
def standard_form(ctx, M, i):
    free, n, fixed, honors = (SHAPES + MORE)[i]
    counts, flags = hand_of(ctx, free, n, fixed)
    hs, _ = hand_of(ctx, H, honors) if honors else ([0] * 34, None)
    counts = counts[:27] + hs[27:]
    size = n + len(fixed) + honors
    v = solve(ctx, M, counts, flags, "solve_normal")
    for k in free:
        counts[k] = ctx.concretize(counts[k])
    w = standard(counts, size // 3)
    ctx.check(v == w, "standard-form", (v, w))
    ctx.cover("ready", w == 0)
    ctx.cover("complete", w == -1)
    ctx.cover("far", w >= 3)


@harness("C27", variants=lambda tier: [(f, n) for f in ("pairs", "orphans") for n in (13, 14)], modules=MODS, covers=("ready", "far", "complete"), validate=40, bounds="seven pairs and thirteen orphans: every hand of 13 or 14 tiles, any counts of the 34 kinds and red fives")
def other_forms(ctx, M, form, n):
    counts, flags = hand_of(ctx, tuple(range(34)), n)
    v = solve(ctx, M, counts, flags, {"pairs": "solve_chitoitsu", "orphans": "solve_kokushi"}[form])
    w = {"pairs": pairs_form, "orphans": orphans_form}[form](counts)
    ctx.check(v == w, form, (v, w))
    ctx.cover("ready", w == 0)
    ctx.cover("complete", w == -1)
    ctx.cover("far", w >= 3)


BOTH = [
    ((), 0, (0, 0, 8, 8, 9, 17, 18), 7),
    ((), 0, (0, 8, 9, 17, 18, 26), 7),
    ((), 0, (4, 4, 5, 5, 6, 6, 13, 13), 6),
    ((), 0, (13, 14), 9),
    ((), 0, (0, 8, 9), 8),
    ((), 0, (4,), 1),
    ((0, 4, 8), 4, (9, 9), 8),
]


@harness("C27", variants=lambda tier: [(i,) for i in range(len(BOTH))], modules=MODS, covers=("closed", "open"), validate=40, max_branches=2000000, bounds="the smallest of the three distances, for seven families of closed and open hands with up to nine honors in any number")
def smallest(ctx, M, i):
    free, n, fixed, honors = BOTH[i]
    counts, flags = hand_of(ctx, free, n, fixed)
    hs, _ = hand_of(ctx, H, honors)
    counts = counts[:27] + hs[27:]
    size = n + len(fixed) + honors
    v = solve(ctx, M, counts, flags)
    for k in free:
        counts[k] = ctx.concretize(counts[k])
    w = standard(counts, size // 3)
    if size >= 13:
        ctx.cover("closed")
        w = low(low(w, pairs_form(counts)), orphans_form(counts))
    else:
        ctx.cover("open")
    ctx.check(v == w, "smallest", (v, w))
