"""C06: calls offered on a discard."""
import numpy as np

from engine import npshim
from engine.core import And, Or, Not, Implies, Iff, ite, Sum
from engine.runner import harness
from . import spec
from .spec import CHI, PON, MINKAN


def make_arr(ctx, vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    if ctx.symbolic:
        return a.view(npshim.SymArray)
    return np.array([float(v) for v in vals], dtype=np.float32)


def sym_hands(ctx, who, discard_kind, discard_red, focus):
    """Four hands.  The counts of the kinds in `focus` range over 0..4 with at most
    four copies in all; the counts of the other kinds over 0..1."""
    hands = []
    for p in range(4):
        hands.append([ctx.int("h%d_%d" % (p, k), 0, 4 if k in focus else 1) for k in range(34)] + [ctx.int("red%d_%d" % (p, c), 0, 1 if discard_kind // 9 == c else 0) for c in range(3)])
    for k in focus:
        ctx.assume(Sum([hands[p][k] for p in range(4)]) + ite(discard_kind == k, 1, 0) <= 4)
    for c in range(3):
        five = 9 * c + 4
        if discard_kind // 9 != c:
            for p in range(4):
                hands[p][34 + c] = 0
            continue
        dr = ite(And(discard_kind == five, discard_red), 1, 0)
        ctx.assume(Sum([hands[p][34 + c] for p in range(4)]) + dr <= 1)
        ctx.assume(And([hands[p][34 + c] <= hands[p][five] for p in range(4)]))
        # at most three fives that are not red
        nb = Sum([hands[p][five] - hands[p][34 + c] for p in range(4)]) + ite(And(discard_kind == five, Not(discard_red)), 1, 0)
        ctx.assume(nb <= 3)
    return hands


def at(hand, idx, lo=0, hi=26):
    """hand[idx] for symbolic idx, 0 outside."""
    r = 0
    for k in range(lo, hi + 1):
        r = ite(idx == k, hand[k], r)
    return r


def parse(code):
    """Tenhou meld code -> (is_chi, is_pon, is_minkan, fields)"""
    chi = (code & 4) != 0
    pon = And(Not(chi), (code & 8) != 0, (code & 0x10) == 0)
    kan = And((code & 0x3C) == 0, (code & 3) != 0)
    return chi, pon, kan


CLASSES = [(r, red) for r in range(9) for red in ((False, True) if r == 4 else (False,))] + [("honor", False)]


def _variants(tier):
    return [(r, red, p) for r, red in CLASSES for p in range(4)]


@harness("C06", variants=_variants, modules=("decision", "draw"), validate=7,
         bounds="every discarder seat, every discarded kind (suit symbolic) and red flag, all four hands symbolic over all 37 counts with at most 4 copies per kind",
         covers=("chi", "pon", "kan", "red-choice"))
def offered_calls(ctx, M, rank, red, player):
    D = M("decision")
    if rank == "honor":
        tile = ctx.fork_int("tile", 27, 33)
        focus = [tile]
    else:
        tile = ctx.fork_int("suit", 0, 2) * 9 + rank
        focus = [tile - rank + r for r in range(9) if abs(r - rank) <= 2]
    hands = sym_hands(ctx, player, tile, red, focus)
    arrs = [make_arr(ctx, h) for h in hands]
    before = [a.copy() for a in arrs]
    out = D.decision_mask(player, arrs, tile, red)
    for a, b in zip(arrs, before):
        ctx.check(And([x == y for x, y in zip(a, b)]), "hands-unmodified")
    ctx.check(len(out) == 4, "one-list-per-player")
    ctx.check(len(out[player]) == 0, "discarder-offered-nothing")
    N = M("draw").Naki
    ctx.observe("n", [len(x) for x in out])
    for p in range(4):
        if p == player:
            continue
        rel = (player - p) % 4
        h = hands[p]
        offers = []
        for d in out[p]:
            ctx.check(And(d.player == p, d.type == D.Decision.NAKI), "names-caller")
            ctx.check(Not(d.executed), "not-executed")
            code = d.naki.naki_code
            ctx.observe("code", code)
            chi, pon, kan = parse(code)
            ctx.check(Or(chi, pon, kan), "response-type", code)
            ctx.check((code & 3) == rel, "names-discarder", code)
            ctx.check(d.naki.convenient_naki_code == N(code).convenient_naki_code, "canonical", code)
            offers.append((code, chi, pon, kan))
        legal_total = 0
        # --- chi
        if rank != "honor":
            for w in range(3):
                s = rank - w
                if not 0 <= s <= 6 or rel != 3:
                    continue
                others = [s + i for i in range(3) if i != w]
                have = [at(h, tile - rank + o) for o in others]
                legal = And([x >= 1 for x in have])
                if 4 in others:
                    redhave = at3(h, tile)
                    black = have[others.index(4)] - redhave
                    o2 = have[1 - others.index(4)]
                    opts = [(True, And(o2 >= 1, redhave >= 1)), (False, And(o2 >= 1, black >= 1))]
                else:
                    opts = [(False, legal)]
                for redh, ok in opts:
                    cnt = 0
                    for code, chi, pon, kan in offers:
                        pat = code >> 10
                        copies = [(code >> 3) & 3, (code >> 5) & 3, (code >> 7) & 3]
                        is_this = And(chi, pat % 3 == w, (pat // 3) % 7 == s, pat // 21 == tile // 9)
                        if 4 in others:
                            is_this = And(is_this, Iff(copies[4 - s] == 0, redh))
                        elif rank == 4:
                            is_this = And(is_this, Iff(copies[w] == 0, red))
                        cnt = cnt + ite(is_this, 1, 0)
                    ctx.check(cnt == ite(ok, 1, 0), "chi-offered-iff-legal", (p, w, redh, cnt))
                    legal_total = legal_total + ite(ok, 1, 0)
        # --- pon
        cnt_k = at(h, tile, 0, 33)
        if rank == 4:
            redhave = at3(h, tile)
            black = cnt_k - redhave
            opts = [(True, And(redhave >= 1, black >= 1)), (False, black >= 2)]
        else:
            opts = [(False, cnt_k >= 2)]
        for redh, ok in opts:
            c = 0
            for code, chi, pon, kan in offers:
                pat = code >> 9
                which, unused = pat % 3, (code >> 5) & 3
                this = And(pon, pat // 3 == tile)
                if rank == 4:
                    has_red = unused != 0
                    red_called = And(has_red, which == 0)
                    this = And(this, Iff(And(has_red, Not(red_called)), redh), Iff(red_called, red))
                c = c + ite(this, 1, 0)
            ctx.check(c == ite(ok, 1, 0), "pon-offered-iff-legal", (p, redh, c))
            legal_total = legal_total + ite(ok, 1, 0)
        # --- open kan
        c = 0
        for code, chi, pon, kan in offers:
            called = code >> 8
            this = And(kan, called // 4 == tile)
            if rank == 4:
                this = And(this, Iff(called % 4 == 0, red))
            c = c + ite(this, 1, 0)
        ctx.check(c == ite(cnt_k == 3, 1, 0), "kan-offered-iff-legal", (p, c))
        legal_total = legal_total + ite(cnt_k == 3, 1, 0)
        ctx.check(legal_total == len(offers), "nothing-else-offered", (p, len(offers)))
        for code, chi, pon, kan in offers:
            for lab, c in (("chi", chi), ("pon", pon), ("kan", kan)):
                ctx.cover(lab, c)
        if len(offers) >= 2:
            ctx.cover("red-choice")


def at3(h, tile):
    suit = tile // 9
    return ite(suit == 0, h[34], ite(suit == 1, h[35], h[36]))
