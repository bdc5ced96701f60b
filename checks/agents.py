"""C16-C23: what the four models are trained on and how they read and answer.

The models' modules run as written over symbolic tensors (engine/torchshim.py)."""
import math

import numpy as np

from engine import npshim
from engine.core import And, Or, Not, Implies, Iff, ite, Sum, is_sym
from engine.runner import harness
from . import spec
from .mask import make_arr
from .spec import CHI, PON, KAKAN, MINKAN, ANKAN

MODELS = {
    "transformer": ("TransformerModel", None),
    "transformer_conv": ("TransformerConvModel", None),
    "transformer_conv_large": ("TransformerConvLargeModel", 1),
    "transformer_conv_ordered": ("TransformerConvOrderedModel", 1),
}
NAMES = tuple(MODELS)
MODULES = tuple("agents." + n for n in NAMES) + ("decision", "draw", "state", "turn", "process_xml")
SEQ = 150
WIDTH = {"during": 71, "discard": 37, "post": 154}
DURING, DISCARD, POST = "during", "discard", "post"
WHICH = {DURING: 0, DISCARD: 1, POST: 2}


def module(M, name):
    return M("agents." + name)


def new_model(M, name):
    cls, arg = MODELS[name]
    c = getattr(module(M, name), cls)
    return c() if arg is None else c(arg)


def shim(ctx):
    if not ctx.symbolic:
        return None
    from engine.torchshim import SHIM

    SHIM.reset()
    return SHIM


def arr(t):
    """tensor -> object ndarray of its values"""
    if hasattr(t, "_sym_data"):
        return np.asarray(t._sym_data()).view(np.ndarray)
    return t.detach().cpu().numpy().astype(object)


def num(v):
    """0/1 as an integer"""
    if isinstance(v, bool):
        return int(v)
    return v.as_int() if hasattr(v, "as_int") else v


# ------------------------------------------------------------------- recorded turns
def state(ctx, M, player, tag=0, hand=None, **over):
    """A recorded state; concrete but distinguishable by tag unless overridden."""
    kw = dict(
        remaining_turns=0,
        hand_tensor=hand if hand is not None else make_arr(ctx, [1 if (k * 5 + tag) % 37 < 13 else 0 for k in range(37)]),
        remaining_tiles=make_arr(ctx, [(k + tag) % 5 for k in range(37)]),
        remaining_tiles_pov=make_arr(ctx, [(k + tag) % 4 for k in range(37)]),
        sutehai_tensors=grid(ctx, [[(k + p + tag) % 2 for k in range(37)] for p in range(4)]),
        is_menzen=[1, 0, 1, 1],
        double_reaches=[0, 0, 0, 1],
        reaches=[0, 1, 0, 1],
        ippatsu=[0, 1, 0, 0],
        melds=[[], [], [], []],
        scores=[250 + tag, 251, 252, 247],
        kyotaku=1,
        honba=tag,
        dora=[5],
        parent_tensor=make_arr(ctx, [1, 0, 0, 0]),
        rounds_remaining=3,
        parent_rounds_remaining=[1, 1, 1, 0],
        remaining_tsumo=40,
        player=player,
    )
    kw.update(over)
    return M("state").StateObject(**kw)


def grid(ctx, rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    if ctx.symbolic:
        return a.view(npshim.SymArray)
    return np.array([[float(v) for v in r] for r in rows], dtype=np.float32)


class Fixed:
    """One call of a type, its fields picked by a seed."""

    def __init__(self, seed):
        self.n = seed

    def int(self, name, lo, hi):
        self.n = self.n * 7 + 3
        return lo + self.n % (hi - lo + 1)


def meld(ctx, M, typ, pre, free=True):
    m = spec.arbitrary_meld(ctx if free else Fixed(sum(map(ord, pre))), typ, pre)
    return M("draw").Naki(m.code)


def own_offers(ctx, M, player, agari, reach, kans, done, pre="", free=99):
    """decisions of an own-turn point: `kans` is a string of k (added) and c
    (concealed); done = number of the offer that was executed, or -1; the first
    `free` calls have any code of their type"""
    D = M("decision")
    out, slots, n = [[], [], []], [], 0
    if agari:
        out[0].append(D.AgariDecision(player, done == n))
        slots.append(1)
        n += 1
    if reach:
        out[1].append(D.ReachDecision(player, done == n))
        slots.append(2)
        n += 1
    for i, c in enumerate(kans):
        nk = meld(ctx, M, KAKAN if c == "k" else ANKAN, "%sn%d_" % (pre, i), i < free)
        out[2].append(D.NakiDecision(player, nk, done == n))
        slots.append(nk.get_during_turn_filter_idx())
        n += 1
    return out, slots


def response_offers(ctx, M, who, agari, calls, done, pre="", free=99):
    """one player's offers on a discard; calls is a string of c, p, m"""
    D = M("decision")
    out, slots, n = [[], [], []], [], 0
    if agari:
        out[0].append(D.AgariDecision(who, done == n))
        slots.append(1)
        n += 1
    for i, c in enumerate(calls):
        nk = meld(ctx, M, {"c": CHI, "p": PON, "m": MINKAN}[c], "%sr%d_%d_" % (pre, who, i), i < free)
        out[2].append(D.NakiDecision(who, nk, done == n))
        slots.append(nk.get_post_turn_filter_idx())
        n += 1
    return out, slots


def samples(ctx, M, name, games, tokens):
    """prepare_batches over games -> {phase: rows}"""
    proc = module(M, name).TransformerTensorProcessor()
    out = proc.prepare_batches(games, tokens)
    return {ph: batch_rows(ctx, out[i]) for ph, i in WHICH.items()}


class Row:
    pass


def batch_rows(ctx, t):
    x, st, mask, y = t[0], t[1], t[2], t[3]
    parts = [arr(x), arr(st[0]), arr(st[1]), arr(st[2]), arr(mask), arr(y)]
    n = parts[0].shape[0]
    ctx.check(all(p.shape[0] == n for p in parts), "parts-have-equal-row-counts", [p.shape for p in parts])
    player = arr(t[4]) if len(t) > 4 else None
    if player is not None:
        ctx.check(player.shape[0] == n, "parts-have-equal-row-counts", player.shape)
    rows = []
    for i in range(n):
        r = Row()
        r.events, r.x1, r.x2, r.x3, r.mask, r.label = (p[i] for p in parts)
        r.player = player[i] if player is not None else None
        rows.append(r)
    return rows


def check_choice(ctx, row, slots, label, width):
    """the row's mask is pass plus the slots, its label the given slot"""
    ctx.check(len(row.mask) == width, "mask-width", len(row.mask))
    for j in range(width):
        on = True if j == 0 else Or([s == j for s in slots])
        ctx.check(num(row.mask[j]) == ite(on, 1, 0), "mask", (j, slots))
    ctx.check(row.label == label, "label", (row.label, label))
    ctx.check(Or([And(row.label == j, row.mask[j] == 1) for j in range(width)]), "label-inside-mask")


TOKENS = [0x2401, 0x2582, 0x2683]


def free_calls(ctx):
    """how many offered calls of a point are arbitrary: one in the quick check"""
    return 1 if ctx.tier == "quick" else 99


# ------------------------------------------------------------------------ C16
OWN = [(a, r, k) for a in (0, 1) for r in (0, 1) for k in ("", "k", "c", "kc", "cck")]


@harness("C16", variants=lambda tier: [(n, (i + j) % 4) + o for i, n in enumerate(NAMES) for j, o in enumerate(OWN)], modules=MODULES, torch=True, covers=("executed", "passed", "none"),
         bounds=lambda tier: "one own-turn point with any of win, riichi and up to three kans on offer (%s); any one of them or none executed" % ("one kan of every meld code, the others fixed" if tier == "quick" else "every meld code for each"))
def own_turn_sample(ctx, M, name, player, agari, reach, kans):
    shim(ctx)
    n = agari + reach + len(kans)
    done = ctx.fork_int("done", 0, n) - 1
    dec, slots = own_offers(ctx, M, player, agari, reach, kans, done, free=free_calls(ctx))
    turn = M("turn").DuringTurn(player, state(ctx, M, player), dec, 2)
    rows = samples(ctx, M, name, [[[turn]]], [[TOKENS]])
    ctx.check(len(rows[DISCARD]) == 0 and len(rows[POST]) == 0, "sample-of-another-kind")
    ctx.check(len(rows[DURING]) == (1 if n else 0), "sample-iff-choice", len(rows[DURING]))
    if not n:
        ctx.cover("none")
        return
    row = rows[DURING][0]
    check_choice(ctx, row, slots, slots[done] if done >= 0 else 0, 71)
    if row.player is not None:
        ctx.check(row.player == player, "player")
    ctx.cover("executed" if done >= 0 else "passed")


@harness("C16", variants=lambda tier: [(n,) for n in NAMES], modules=MODULES, torch=True, covers=("some", "all"),
         bounds="three own-turn points of one round among discards and responses, each with or without a choice")
def own_turn_sequence(ctx, M, name):
    shim(ctx)
    T = M("turn")
    turns, want = [], []
    for i in range(3):
        player = (i * 3 + 1) % 4
        kind = ctx.fork_int("kind%d" % i, 0, 3)
        agari, reach, kans = ((0, 0, ""), (1, 0, ""), (0, 1, "c"), (1, 1, ""))[kind]
        n = agari + reach + len(kans)
        done = ctx.fork_int("done%d" % i, 0, min(n, 2)) - 1
        dec, slots = own_offers(ctx, M, player, agari, reach, kans, done, "t%d" % i, free=0)
        turns.append(T.DuringTurn(player, state(ctx, M, player, i), dec, i + 1))
        turns.append(T.DiscardTurn(player, state(ctx, M, player, i + 10), 8 * i + 3, i + 1))
        turns.append(T.PostTurn(player, state(ctx, M, player, i + 20), [[[], [], []] for _ in range(4)], i + 2))
        if n:
            want.append((i, player, slots, slots[done] if done >= 0 else 0))
    rows = samples(ctx, M, name, [[turns]], [[TOKENS + [0x2403]]])
    ctx.check(len(rows[DURING]) == len(want), "one-sample-per-choice", (len(rows[DURING]), len(want)))
    for row, (i, player, slots, label) in zip(rows[DURING], want):
        check_choice(ctx, row, slots, label, 71)
        ctx.check(row.x3[2] == i, "sample-of-its-own-turn", (row.x3, i))
        if row.player is not None:
            ctx.check(row.player == player, "player")
    ctx.check(len(rows[DISCARD]) == 3 and len(rows[POST]) == 0, "samples-by-kind")
    ctx.cover("all" if len(want) == 3 else "some", len(want) > 0)


# ------------------------------------------------------------------------ C17
def hand_with(ctx, tile, pre=""):
    """A hand (kinds and red flags) that holds the given tile."""
    h = [ctx.int("%sh%d" % (pre, k), 0, 4) for k in range(34)]
    red = [ctx.int("%sred%d" % (pre, c), 0, 1) for c in range(3)]
    for c in range(3):
        ctx.assume(red[c] <= h[9 * c + 4])
        ctx.assume(Implies(tile == 16 + 36 * c, red[c] == 1))
        ctx.assume(Implies(h[9 * c + 4] == 4, red[c] == 1))
    ctx.assume(And([Implies(tile // 4 == k, h[k] >= 1) for k in range(34)]))
    ctx.assume(Sum(h) <= 14)
    return h + red


@harness("C17", variants=lambda tier: [(n,) for n in NAMES], modules=MODULES, torch=True, covers=("red", "plain", "last-of-kind"), bounds="every hand of up to 14 tiles and every one of its tiles discarded")
def discard_sample(ctx, M, name):
    shim(ctx)
    tile = ctx.int("tile", 0, 135)
    h = hand_with(ctx, tile)
    player = ctx.fork_int("player", 0, 3)
    turn = M("turn").DiscardTurn(player, state(ctx, M, player, hand=make_arr(ctx, h)), tile, 2)
    rows = samples(ctx, M, name, [[[turn]]], [[TOKENS]])
    ctx.check(len(rows[DURING]) == 0 and len(rows[POST]) == 0, "sample-of-another-kind")
    ctx.check(len(rows[DISCARD]) == 1, "one-sample-per-discard", len(rows[DISCARD]))
    row = rows[DISCARD][0]
    check_discard(ctx, row, h, tile)
    if row.player is not None:
        ctx.check(row.player == player, "player")
    ctx.cover("red", spec.is_red(tile))
    ctx.cover("plain", Not(spec.is_red(tile)))
    ctx.cover("last-of-kind", And(tile // 4 == 30, h[30] == 1))


def check_discard(ctx, row, h, tile):
    ctx.check(len(row.mask) == 37, "mask-width", len(row.mask))
    for k in range(37):
        ctx.check(num(row.mask[k]) == ite(h[k] > 0, 1, 0), "mask", (k, h[k]))
    ctx.check(row.label == tile // 4, "label", (row.label, tile))
    ctx.check(Or([And(row.label == j, row.mask[j] == 1) for j in range(37)]), "label-inside-mask")


@harness("C17", variants=lambda tier: [(n,) for n in NAMES], modules=MODULES, torch=True, bounds="three discards of one round among own-turn and response points, symbolic tiles and hands")
def discard_sequence(ctx, M, name):
    shim(ctx)
    T = M("turn")
    turns, want = [], []
    for i in range(3):
        player = (i * 3 + 1) % 4
        tile = ctx.int("t%d_tile" % i, 0, 135)
        h = hand_with(ctx, tile, "t%d_" % i)
        dec, _ = own_offers(ctx, M, player, 1, 0, "", 0 if i == 1 else -1)
        turns.append(T.DuringTurn(player, state(ctx, M, player, i + 10), dec, i))
        turns.append(T.DiscardTurn(player, state(ctx, M, player, i, hand=make_arr(ctx, h)), tile, i))
        turns.append(T.PostTurn(player, state(ctx, M, player, i + 20), [[[], [], []] for _ in range(4)], i + 1))
        want.append((i, player, h, tile))
    rows = samples(ctx, M, name, [[turns]], [[TOKENS]])
    ctx.check(len(rows[DISCARD]) == 3, "one-sample-per-discard", len(rows[DISCARD]))
    for row, (i, player, h, tile) in zip(rows[DISCARD], want):
        check_discard(ctx, row, h, tile)
        ctx.check(row.x3[2] == i, "sample-of-its-own-turn", (row.x3, i))
        if row.player is not None:
            ctx.check(row.player == player, "player")
    ctx.check(len(rows[DURING]) == 3, "samples-by-kind")


# ------------------------------------------------------------------------ C18
# offers per seat after the discarder (next, across, previous)
RESP = [("", "", ""), ("R", "", ""), ("c", "", ""), ("", "p", ""), ("", "", "Rpm"), ("ccp", "", ""), ("Rc", "pm", ""), ("c", "p", "R"), ("R", "R", "R"), ("", "R", "p"), ("cp", "", "R"), ("cR", "R", "m")]


@harness("C18", variants=lambda tier: [(n, i) for n in NAMES for i in range(len(RESP))], modules=MODULES, torch=True, covers=("none", "passed", "acted", "two-acted"),
         bounds=lambda tier: "one discard by any seat with the stated combinations of offers to up to three players (%s); each may have executed one of hers or none" % ("one call of every meld code, the others fixed" if tier == "quick" else "up to two calls of every meld code"))
def response_sample(ctx, M, name, i):
    shim(ctx)
    player = (i + NAMES.index(name)) % 4
    dec = [[[], [], []] for _ in range(4)]
    offers = []
    free = 1 if ctx.tier == "quick" else 2
    for d, o in enumerate(RESP[i]):
        if not o:
            continue
        who = (player + 1 + d) % 4
        agari = 1 if "R" in o else 0
        calls = o.replace("R", "")
        done = ctx.fork_int("done%d" % d, 0, agari + len(calls)) - 1
        dec[who], slots = response_offers(ctx, M, who, agari, calls, done, free=free)
        free = max(0, free - len(calls))
        offers.append((who, slots, done))
    turn = M("turn").PostTurn(player, state(ctx, M, player), dec, 2)
    rows = samples(ctx, M, name, [[[turn]]], [[TOKENS]])
    ctx.check(len(rows[DISCARD]) == 0 and len(rows[DURING]) == 0, "sample-of-another-kind")
    check_responses(ctx, rows[POST], offers)
    if not offers:
        ctx.cover("none")
    ctx.cover("passed", any(o[2] < 0 for o in offers))
    ctx.cover("acted", any(o[2] >= 0 for o in offers))
    ctx.cover("two-acted", len([o for o in offers if o[2] >= 0]) > 1)


def check_responses(ctx, rows, offers):
    """offers in seat order after the discarder.  Once a player has acted, the wish
    of the players after is not known: their samples may be left out."""
    acted = next((k for k, o in enumerate(offers) if o[2] >= 0), len(offers) - 1)
    ctx.check(len(rows) in (acted + 1, len(offers)), "one-sample-per-player-with-a-choice", (len(rows), len(offers)))
    for row, (who, slots, done) in zip(rows, offers):
        check_choice(ctx, row, slots, slots[done] if done >= 0 else 0, 154)
        if row.player is not None:
            ctx.check(row.player == who, "player")


@harness("C18", variants=lambda tier: [(n,) for n in NAMES], modules=MODULES, torch=True, covers=("some",),
         bounds="three response points of one round, each with or without offers to one player, among other points")
def response_sequence(ctx, M, name):
    shim(ctx)
    T = M("turn")
    turns, want = [], []
    for i in range(3):
        player = (i * 3 + 2) % 4
        kind = ctx.fork_int("kind%d" % i, 0, 2)
        dec = [[[], [], []] for _ in range(4)]
        if kind:
            who = (player + kind) % 4
            done = ctx.fork_int("done%d" % i, 0, 2) - 1
            dec[who], slots = response_offers(ctx, M, who, 1, "p", done, "t%d" % i, free=0)
            want.append((i, who, slots, slots[done] if done >= 0 else 0))
        turns.append(T.DiscardTurn(player, state(ctx, M, player, i + 10), 8 * i + 3, i))
        turns.append(T.PostTurn(player, state(ctx, M, player, i), dec, i + 1))
    rows = samples(ctx, M, name, [[turns]], [[TOKENS]])
    ctx.check(len(rows[POST]) == len(want), "one-sample-per-choice", (len(rows[POST]), len(want)))
    for row, (i, who, slots, label) in zip(rows[POST], want):
        check_choice(ctx, row, slots, label, 154)
        ctx.check(row.x3[2] == i, "sample-of-its-own-point", (row.x3, i))
        if row.player is not None:
            ctx.check(row.player == who, "player")
    ctx.cover("some", len(want) > 0)


# ------------------------------------------------------------------------ C19
@harness("C19", variants=lambda tier: [(n, ph, k) for n in NAMES for ph in WHICH for k in (((0, 1), (3, 3), (7, 10), (149, 150)) if tier == "quick" else ((0, 0), (0, 1), (1, 1), (3, 3), (5, 9), (7, 10), (20, 40), (75, 150), (148, 149), (149, 150)))],
         modules=MODULES, torch=True, bounds="every token sequence (all 17-bit values) of the stated lengths with the decision at the stated position, two decision points of different rounds at once")
def history(ctx, M, name, phase, at):
    shim(ctx)
    k, n = at
    T = M("turn")
    toks = [ctx.int("tok%d" % i, 1, (1 << 17) - 1) if n < 20 or i < 4 or i > n - 4 or abs(i - k) < 3 else 0x2400 + i for i in range(n)]
    other = [0x4BFF, 0x2401, 0x2402]

    def turn(i, idx):
        s = state(ctx, M, 1, i)
        if phase == DURING:
            return T.DuringTurn(1, s, own_offers(ctx, M, 1, 1, 1, "", -1)[0], idx)
        if phase == DISCARD:
            return T.DiscardTurn(1, s, 3, idx)
        dec = [[[], [], []] for _ in range(4)]
        dec[3] = response_offers(ctx, M, 3, 1, "", 0)[0]
        return T.PostTurn(1, s, dec, idx)

    first = [turn(1, k // 2)] if k > 1 else []
    games = [[[turn(0, 1)], first + [turn(2, k)]]]
    rows = samples(ctx, M, name, games, [[other, toks]])[phase]
    ctx.check(len(rows) == 2 + len(first), "one-sample-each", len(rows))
    for row, src, upto in zip(rows, [other] + [toks] * len(first) + [toks], [1] + [k // 2] * len(first) + [k]):
        ctx.check(len(row.events) == SEQ, "sequence-length", len(row.events))
        for i in range(SEQ):
            w = src[i] if i < upto else 0
            ctx.check(row.events[i] == w, "history" if i < upto else "future-hidden", (i, row.events[i]))


# ------------------------------------------------------------------------ C20
def symbolic_state(ctx, M, player):
    I = ctx.int
    v = dict(
        hand=[I("hand%d" % k, 0, 4 if k < 34 else 1) for k in range(37)],
        pov=[I("pov%d" % k, 0, 4 if k < 34 else 1) for k in range(37)],
        sute=[[I("sute%d_%d" % (p, k), 0, 4 if k < 34 else 1) for k in range(37)] for p in range(4)],
        scores=[I("score%d" % p, -2000, 3000) for p in range(4)],
        parent=[I("parent%d" % p, 0, 1) for p in range(4)],
        parents_left=[I("parents_left%d" % p, 0, 2) for p in range(4)],
        double=[I("double%d" % p, 0, 1) for p in range(4)],
        reaches=[I("reach%d" % p, 0, 1) for p in range(4)],
        ippatsu=[I("ippatsu%d" % p, 0, 1) for p in range(4)],
        menzen=[I("menzen%d" % p, 0, 1) for p in range(4)],
        draws=I("draws", 0, 70),
        kyotaku=I("kyotaku", 0, 20),
        honba=I("honba", 0, 40),
        rounds=I("rounds", 0, 8),
    )
    s = state(
        ctx, M, player, hand=make_arr(ctx, v["hand"]), remaining_tiles_pov=make_arr(ctx, v["pov"]), sutehai_tensors=grid(ctx, v["sute"]), is_menzen=list(v["menzen"]), double_reaches=list(v["double"]),
        reaches=list(v["reaches"]), ippatsu=list(v["ippatsu"]), scores=list(v["scores"]), kyotaku=v["kyotaku"], honba=v["honba"], parent_tensor=make_arr(ctx, v["parent"]), rounds_remaining=v["rounds"],
        parent_rounds_remaining=list(v["parents_left"]), remaining_tsumo=v["draws"], remaining_tiles=make_arr(ctx, [(3 * k) % 5 for k in range(37)]))
    return s, v


def check_planes(ctx, name, x1, hand, pov, sute, seat):
    """the tile planes of one sample against the counts they stand for"""
    planes = [hand, pov, sute[seat]]
    if name == "transformer_conv_ordered":
        planes = [hand, pov] + [sute[(seat + d) % 4] for d in range(4)]
    if name == "transformer":
        ctx.check(x1.shape == (3, 37), "tile-planes-shape", x1.shape)
        for i, p in enumerate(planes):
            for k in range(37):
                ctx.check(x1[i, k] == p[k], "tile-plane-%d" % i, (k, x1[i, k]))
    else:
        ctx.check(x1.shape == (len(planes), 37, 4), "tile-planes-shape", x1.shape)
        for i, p in enumerate(planes):
            for k in range(37):
                for c in range(4):
                    ctx.check(num(x1[i, k, c]) == ite(p[k] > c, 1, 0), "tile-plane-%d" % i, (k, c, x1[i, k, c]))


@harness("C20", variants=lambda tier: [(n, ph) for n in NAMES for ph in WHICH], modules=MODULES, torch=True, bounds="every state (hands and counts 0..4, flags 0/1, scores -2000..3000 hundreds, sticks, rounds and draws in their ranges), every seat")
def features(ctx, M, name, phase):
    shim(ctx)
    T = M("turn")
    player = ctx.fork_int("player", 0, 3)
    s, v = symbolic_state(ctx, M, player)
    if phase == DURING:
        t = T.DuringTurn(player, s, own_offers(ctx, M, player, 1, 0, "", -1)[0], 2)
    elif phase == DISCARD:
        ctx.assume(v["hand"][0] >= 1)
        t = T.DiscardTurn(player, s, 3, 2)
    else:
        dec = [[[], [], []] for _ in range(4)]
        dec[(player + 1) % 4] = response_offers(ctx, M, (player + 1) % 4, 1, "", -1)[0]
        t = T.PostTurn(player, s, dec, 2)
    rows = samples(ctx, M, name, [[[t]]], [[TOKENS]])[phase]
    ctx.check(len(rows) == 1, "one-sample", len(rows))
    row = rows[0]
    check_planes(ctx, name, row.x1, v["hand"], v["pov"], v["sute"], player)
    ctx.check(row.x2.shape == (7, 4), "status-shape", row.x2.shape)
    for i, key in enumerate(("scores", "parent", "parents_left", "double", "reaches", "ippatsu", "menzen")):
        for p in range(4):
            ctx.check(num(row.x2[i, p]) == v[key][p], key, (p, row.x2[i, p]))
    ctx.check(row.x3.shape == (4,), "counters-shape", row.x3.shape)
    for i, key in enumerate(("draws", "kyotaku", "honba", "rounds")):
        ctx.check(row.x3[i] == v[key], key, row.x3[i])


@harness("C20", variants=lambda tier: [(n,) for n in NAMES], modules=MODULES, torch=True, bounds="the state network of each model on two rows of arbitrary state vectors")
def state_network(ctx, M, name):
    """The widths fit, and every number of the vectors reaches a learned layer of its row."""
    shim(ctx)
    mod = module(M, name)
    net = mod.StateNet()
    net.eval()
    turns = [M("turn").DiscardTurn(p, state(ctx, M, p, p, hand=make_arr(ctx, [1] * 37)), 3, 1) for p in range(2)]
    batch = mod.TransformerTensorProcessor().prepare_batches([[turns]], [[TOKENS]])[WHICH[DISCARD]]
    shapes = [tuple(t.shape) for t in batch[1]]
    ids, n = [], 0
    for s in shapes:
        a = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            a[i] = ctx.int("v%d" % n, -2, 2) if ctx.symbolic else 0
            n += 1
        ids.append(a)
    if not ctx.symbolic:
        out = net(batch[1])
        ctx.check(out.shape[0] == 2, "rows", tuple(out.shape))
        got = influences(mod, net, batch[1])
        ctx.check(got, "component-ignored")
        return
    from engine.torchshim import SymTensor, real, taint_of

    out = net(tuple(SymTensor(a, real.float32) for a in ids))
    ctx.check(out.shape[0] == 2, "rows", tuple(out.shape))
    reach = taint_of(out)
    for a in ids:
        for b in range(2):
            for i in np.ndindex(*a.shape[1:]):
                k = a[(b,) + i].e.get_id()
                ctx.check(k in reach.get(b, ()), "component-ignored", i)
                ctx.check(k not in reach.get(1 - b, ()), "rows-mixed", i)


def influences(mod, net, vecs):
    """concrete replay: every number of a row changes that row's output for some weights"""
    import torch

    torch.manual_seed(3)
    for p in net.parameters():
        torch.nn.init.uniform_(p, 0.01, 0.05)
    with torch.no_grad():
        base = net(vecs)
        for t in range(len(vecs)):
            n = vecs[t][0].numel()
            for i in range(n):
                v = [x.clone() for x in vecs]
                v[t][0].view(-1)[i] += 3.0
                if torch.equal(net(tuple(v))[0], base[0]):
                    return False
    return True


# ------------------------------------------------------------------------ C21
SIZE = 8
KINDS = ("pad", "discard", "dora", "during", "post", "riichi")


def small(ctx, mod):
    """the model's embedding width cut to 8 for the check (the code does not depend on it)"""
    if hasattr(mod, "EMBD_SIZE"):
        old = mod.EMBD_SIZE
        mod.EMBD_SIZE = SIZE
        ctx.cleanups.append(lambda: setattr(mod, "EMBD_SIZE", old))
    return getattr(mod, "EMBD_SIZE", SIZE)


def backend(ctx):
    if ctx.symbolic:
        from engine.torchshim import SHIM

        return SHIM.torch
    import torch

    return torch


def tens(ctx, vals, dtype="int64"):
    """nested list of numbers -> tensor"""
    import torch

    dt = getattr(torch, dtype)
    if not ctx.symbolic:
        return torch.tensor(vals, dtype=dt)
    from engine.torchshim import SymTensor

    a = np.asarray(vals, dtype=object)
    return SymTensor(a, dt)


EMB = {4: "type", 37: "tile", 71: "during", 154: "post", 1: "giri", 2: "giri"}


def coded(ctx, enc, E):
    """set the embedding tables: row r of the k-th table is r+1 in dimension k, 0 elsewhere"""
    mods = [m for m in enc.modules() if type(m).__name__ == "Embedding"]
    where = {}
    for m in mods:
        rows = int(m.weight.shape[0])
        k = ("type", "tile", "giri", "during", "post").index(EMB[rows])
        where[EMB[rows]] = rows
        w = [[(r + 1 if rows != 1 else 2) if d == k else 0 for d in range(E)] for r in range(rows)]
        set_weight(ctx, m.weight, w)
    ctx.check(len(mods) == 5 and len(where) == 5, "five-tables", sorted(where))
    return where


def set_weight(ctx, p, vals):
    t = tens(ctx, vals, "float32")
    if ctx.symbolic:
        p.data = t
    else:
        import torch

        with torch.no_grad():
            p.copy_(t)


def call_encoder(ctx, name, enc, toks, players):
    x = tens(ctx, toks, "int32")
    if name == "transformer_conv_ordered":
        return arr(enc(x, tens(ctx, players)))
    return arr(enc(x))


def token_of(ctx, kind, pre):
    """(token, fields) of an event of the kind, every field value"""
    I = lambda n, a, b: ctx.int(pre + n, a, b)
    if kind == "pad":
        return 0, {}
    if kind == "discard":
        who, tile, giri = I("who", 0, 3), I("tile", 0, 36), I("giri", 0, 1)
        return (1 << 13) | (1 << 10) | (who << 8) | (giri << 7) | tile, dict(type=1, who=who, tile=tile, giri=giri)
    if kind == "dora":
        tile = I("tile", 0, 36)
        return (4 << 13) | (4 << 10) | tile, dict(type=4, tile=tile)
    who = I("who", 0, 3)
    if kind == "riichi":
        return (2 << 13) | (3 << 10) | (who << 8) | 2, dict(type=3, who=who)
    if kind == "during":
        slot = I("slot", 3, 70)
        return (2 << 13) | (2 << 10) | (who << 8) | slot, dict(type=2, who=who, during=slot)
    slot = I("slot", 2, 153)
    return (3 << 13) | (2 << 10) | (who << 8) | slot, dict(type=2, who=who, post=slot)


def near(a, b):
    d = a - b
    return And(d <= 0.001, d >= -0.001)


@harness("C21", variants=lambda tier: [(n, T) for n in NAMES for T in ((1, 2, 3, 150) if tier == "quick" else (1, 2, 3, 4, 7, 20, 75, 149, 150))], modules=MODULES, torch=True, reals=True,
         covers=KINDS, bounds="event sequences of the stated lengths, two rows, up to three events of every kind with every field value at the first, middle and last position; embedding width 8; tables coded so that every row of each is recognised")
def encoder_input(ctx, M, name, T):
    shim(ctx)
    mod = module(M, name)
    E = small(ctx, mod)
    enc = mod.Encoder(0)
    enc.eval()
    rows = coded(ctx, enc, E)
    # the position and player codes, read off probe events
    pos = []
    probe = call_encoder(ctx, name, enc, [[(4 << 13) | (4 << 10)] * T], [0])
    ctx.check(probe.shape == (1, T, E), "shape", probe.shape)
    for t in range(T):
        v = [probe[0, t, d] for d in range(E)]
        v[0] = v[0] - 4
        v[1] = v[1] - 1
        pos.append(v)
    who = []
    for p in range(4):
        v = call_encoder(ctx, name, enc, [[(1 << 13) | (1 << 10) | (p << 8)] + [0] * (T - 1)], [0])
        v = [v[0, 0, d] - pos[0][d] for d in range(E)]
        v[0] = v[0] - 1
        v[1] = v[1] - 1
        who.append(v)
    # any two positions are told apart, and any two seats
    far = lambda a, b: Or([Or(x - y > 0.001, y - x > 0.001) for x, y in zip(a, b)])
    for i in range(T):
        ctx.check(far(pos[i], [0] * E), "position-coded", i)
        for j in range(i):
            ctx.check(far(pos[i], pos[j]), "positions-distinct", (i, j))
    for i in range(4):
        ctx.check(far(who[i], [0] * E), "player-coded", i)
        for j in range(i):
            ctx.check(far(who[i], who[j]), "players-distinct", (i, j))

    spots = sorted({0, T // 2, T - 1})
    first = ctx.fork_int("kind", 0, len(KINDS) - 1)
    toks = [[0] * T for _ in range(2)]
    ev = [[{} for _ in range(T)] for _ in range(2)]
    for b in range(2):
        for n, t in enumerate(spots):
            kind = KINDS[(first + n * 2 + b * 3) % len(KINDS)]
            toks[b][t], ev[b][t] = token_of(ctx, kind, "b%dt%d_" % (b, n))
            ctx.cover(kind)
    viewer = [ctx.int("viewer%d" % b, 0, 3) for b in range(2)]
    out = call_encoder(ctx, name, enc, toks, viewer)
    ctx.check(out.shape == (2, T, E), "shape", out.shape)
    ordered = name == "transformer_conv_ordered"
    for b in range(2):
        for t in range(T):
            f = ev[b][t]
            want = [0] * E
            if f:
                want = list(pos[t])
                want[0] = want[0] + f["type"]
                if "tile" in f:
                    want[1] = want[1] + f["tile"] + 1
                if "giri" in f:
                    want[2] = want[2] + ite(f["giri"] == 1, 2, 0)
                if "during" in f:
                    want[3] = want[3] + f["during"] + 1
                if "post" in f:
                    want[4] = want[4] + f["post"] + 1
                if "who" in f:
                    w = (f["who"] - viewer[b]) % 4 if ordered else f["who"]
                    for d in range(E):
                        want[d] = want[d] + ite(w == 0, who[0][d], ite(w == 1, who[1][d], ite(w == 2, who[2][d], who[3][d])))
            for d in range(E):
                what = ("type", "tile", "drawn-tile-flag", "own-turn-slot", "response-slot", "code", "code", "code")[min(d, 7)]
                ctx.check(near(out[b, t, d], want[d]), what if f else "padding", (b, t, d))


def give_scores(ctx, model, of):
    """make every row's scores of the w actions of a kind of(w), whatever comes in"""
    scores = {}
    for m in model.decoder.modules():
        if type(m).__name__ == "Linear" and m.out_features in (37, 71, 154):
            w = m.out_features
            scores[w] = of(w)
            set_weight(ctx, m.weight, [[0] * m.in_features for _ in range(w)])
            set_weight(ctx, m.bias, scores[w])
    ctx.check(sorted(scores) == [37, 71, 154], "one-head-per-kind", sorted(scores))
    return scores


# ------------------------------------------------------------------------ C22
TOP = 10**6


@harness("C22", variants=lambda tier: [(n, h) for n in NAMES for h in WHICH], modules=MODULES, torch=True,
         bounds="two rows with every 0/1 mask that allows something and every integer score of every action in -10^6..10^6 as the head's output")
def masked_scores(ctx, M, name, head):
    shim(ctx)
    mod = module(M, name)
    model = new_model(M, name)
    model.eval()
    W = WIDTH[head]
    scores = give_scores(ctx, model, lambda w: [ctx.int("s%d" % j, -TOP, TOP) for j in range(w)] if w == W else [7] * w)
    mask = [[ctx.int("m%d_%d" % (b, j), 0, 1) for j in range(W)] for b in range(2)]
    for b in range(2):
        ctx.assume(Or([m == 1 for m in mask[b]]))
    y = tens(ctx, [first_legal(ctx, mask[b]) for b in range(2)])
    turns = [M("turn").DiscardTurn(p, state(ctx, M, p, p, hand=make_arr(ctx, [1] * 37)), 3, 1) for p in range(2)]
    vec = mod.TransformerTensorProcessor().prepare_batches([[turns]], [[TOKENS]])[WHICH[DISCARD]][1]
    enc = unknown(ctx, (2, SEQ, width_of(mod)))
    out, loss = model.decoder(enc, vec, tens(ctx, mask, "float32"), y, head)
    out = arr(out)
    ctx.check(out.shape == (2, W), "shape", out.shape)
    own = scores[W]
    for b in range(2):
        for j in range(W):
            ctx.check(Implies(mask[b][j] == 1, out[b, j] == own[j]), "legal-score-kept", (b, j))
            ctx.check(Implies(mask[b][j] == 0, out[b, j] <= -TOP - 200), "illegal-score", (b, j))


def first_legal(ctx, mask):
    r = 0
    for j in reversed(range(len(mask))):
        r = ite(mask[j] == 1, j, r)
    return r


def width_of(mod):
    return mod.EMBD_SIZE


def unknown(ctx, shape):
    if ctx.symbolic:
        from engine.torchshim import havoc

        return havoc(shape)
    import torch

    return torch.randn(tuple(shape), generator=torch.Generator().manual_seed(1))


# ------------------------------------------------------------------------ C23
PLAN = (  # turns of (game, round): d own-turn with a choice, o own-turn without, s discard, r response with a choice, n response without
    (("dsr", "sd"), ("", "rsd")),
    (("s", "s"), ("s", "ss")),
    (("o", "n"), ("osn", "")),
    (("dd", "ss"), ("rr", "")),
    (("dsrd", "nsr"), ("sdrs", "orsd")),
)


def games_of(ctx, M, plan):
    """recorded games by the plan, every decision point with contents of its own"""
    T = M("turn")
    games, tokens, points, n = [], [], {ph: [] for ph in WHICH}, 0
    for g, rounds in enumerate(plan):
        turns_of, toks_of = [], []
        for r, kinds in enumerate(rounds):
            toks = [0x2400 + 64 * g + 16 * r + i for i in range(len(kinds) + 1)]
            turns = []
            for i, k in enumerate(kinds):
                n += 1
                pl = (g + 2 * r + i) % 4
                hon = ctx.int("tag%d" % n, 0, 400)
                s = lambda who: state(ctx, M, pl, n, honba=hon, scores=[n, n + 1, n + 2, n + 3], hand=make_arr(ctx, [1 if j <= n else 0 for j in range(37)]))
                seen = toks[: i + 1]
                if k in "do":
                    dec, slots = own_offers(ctx, M, pl, 1, 0, "c" if n % 2 else "", n % 3 - 1 if n % 2 else -1, "g%d" % n, free=0) if k == "d" else ([[], [], []], [])
                    turns.append(T.DuringTurn(pl, s(pl), dec, i + 1))
                    if k == "d":
                        done = n % 3 - 1 if n % 2 else -1
                        points[DURING].append((seen, n, hon, slots, slots[done] if done >= 0 else 0, pl))
                elif k == "s":
                    turns.append(T.DiscardTurn(pl, s(pl), 4 * (n % 8), i + 1))
                    points[DISCARD].append((seen, n, hon, None, n % 8, pl))
                else:
                    dec = [[[], [], []] for _ in range(4)]
                    who = (pl + 1 + n % 3) % 4
                    if k == "r":
                        done = n % 3 - 1
                        dec[who], slots = response_offers(ctx, M, who, 1, "p", done, "g%d" % n, free=0)
                        points[POST].append((seen, n, hon, slots, slots[done] if done >= 0 else 0, who))
                    turns.append(T.PostTurn(pl, s(pl), dec, i + 1))
            turns_of.append(turns)
            toks_of.append(toks)
        games.append(turns_of)
        tokens.append(toks_of)
    return games, tokens, points


def same_row(ctx, name, row, point, width):
    """row shows exactly this decision point, in all its parts"""
    seen, n, hon, slots, label, player = point
    c = [row.events[i] == (seen[i] if i < len(seen) else 0) for i in range(SEQ)]
    c += [row.x2[0][p] == n + p for p in range(4)]
    c += [row.x3[2] == hon, row.label == label]
    hand = row.x1[0]
    c += [num(hand[j] if name == "transformer" else hand[j][0]) == (1 if j <= n else 0) for j in range(37)]
    legal = set(range(37)) & set(range(n + 1)) if slots is None else {0} | set(slots)
    c += [num(row.mask[j]) == (1 if j in legal else 0) for j in range(width)]
    if row.player is not None:
        c.append(row.player == player)
    return And(c)


@harness("C23", variants=lambda tier: [(n, i) for n in NAMES for i in range(len(PLAN))], modules=MODULES, torch=True, covers=("some", "empty"),
         bounds="two games of two rounds with the stated turns (rounds without turns, points without a choice, kinds of decision that never occur), each decision point with contents of its own")
def collected(ctx, M, name, i):
    shim(ctx)
    games, tokens, points = games_of(ctx, M, PLAN[i])
    rows = samples(ctx, M, name, games, tokens)
    for ph in WHICH:
        ctx.check(len(rows[ph]) == len(points[ph]), "one-row-per-decision", (ph, len(rows[ph]), len(points[ph])))
        for row, p in zip(rows[ph], points[ph]):
            ctx.check(same_row(ctx, name, row, p, WIDTH[ph]), "row-of-one-decision", (ph, p[1]))
        ctx.cover("some" if points[ph] else "empty")


# ------------------------------------------------------------------------ C33
def losses_on(ctx):
    s = shim(ctx)
    if s is not None:
        s.losses = True
        ctx.cleanups.append(s.reset)


def cross_entropy(ctx, row, label):
    """minus the log of the probability the scores give to the label"""
    if ctx.symbolic:
        from engine.npshim import SymArray
        from engine.torchshim import lse

        return lse(list(row)) - row.view(SymArray)[label]
    xs = [float(x) for x in row]
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs)) - xs[int(label)]


def check_loss(ctx, out, labels, loss, what):
    loss = arr(loss)
    ctx.check(loss.shape == (), "one-number", loss.shape)
    want = sum(cross_entropy(ctx, out[b], labels[b]) for b in range(len(labels))) / len(labels)
    d = loss.item() - want
    ctx.check(And(d <= 0.01, d >= -0.01), "mean-cross-entropy", what)


def whole_scores(ctx, w, pre="s"):
    return [ctx.whole("%s%d" % (pre, j), -60, 60) for j in range(w)]


@harness("C33", variants=lambda tier: [(n, h) for n in NAMES for h in WHICH], modules=MODULES, torch=True, reals=True,
         bounds="two rows with every 0/1 mask that allows the label, every label, and every score of every action in -60..60 as the head's output; logarithm of the sum of exponentials as a function of its arguments")
def loss_of_scores(ctx, M, name, head):
    losses_on(ctx)
    mod = module(M, name)
    model = new_model(M, name)
    model.eval()
    W = WIDTH[head]
    give_scores(ctx, model, lambda w: whole_scores(ctx, w) if w == W else [7] * w)
    mask = [[ctx.int("m%d_%d" % (b, j), 0, 1) for j in range(W)] for b in range(2)]
    labels = [ctx.int("y%d" % b, 0, W - 1) for b in range(2)]
    for b in range(2):
        ctx.assume(And([Implies(labels[b] == j, mask[b][j] == 1) for j in range(W)]))
    turns = [M("turn").DiscardTurn(p, state(ctx, M, p, p, hand=make_arr(ctx, [1] * 37)), 3, 1) for p in range(2)]
    vec = mod.TransformerTensorProcessor().prepare_batches([[turns]], [[TOKENS]])[WHICH[DISCARD]][1]
    enc = unknown(ctx, (2, SEQ, width_of(mod)))
    out, loss = model.decoder(enc, vec, tens(ctx, mask, "float32"), tens(ctx, labels), head)
    check_loss(ctx, arr(out), labels, loss, head)


@harness("C33", variants=lambda tier: [(n, i) for n in NAMES for i in range(len(PLAN))], modules=MODULES, torch=True, reals=True, covers=("loss",),
         bounds="whole batches of two games of two rounds: one loss per kind of decision that occurs, over all its samples, in their order, for every score of every action in -60..60")
def loss_of_batch(ctx, M, name, i):
    losses_on(ctx)
    games, tokens, _ = games_of(ctx, M, PLAN[i])
    rows = samples(ctx, M, name, games, tokens)
    model = new_model(M, name)
    model.eval()
    scores = give_scores(ctx, model, lambda w: whole_scores(ctx, w, "w%d_" % w))
    seen = []
    for out, loss in model(games, tokens):
        out = arr(out)
        ctx.check(out.ndim == 2 and out.shape[1] in scores, "shape", out.shape)
        W = out.shape[1]
        ph = next(p for p in WHICH if WIDTH[p] == W)
        seen.append(ph)
        ctx.check(out.shape[0] == len(rows[ph]), "all-samples", (ph, out.shape))
        for b, row in enumerate(rows[ph]):
            for j in range(W):
                ctx.check(ite(row.mask[j] == 1, out[b, j] == scores[W][j], out[b, j] <= -200), "scores-of-the-row", (ph, b, j))
        check_loss(ctx, out, [row.label for row in rows[ph]], loss, ph)
        ctx.cover("loss")
    ctx.check(sorted(seen) == sorted(ph for ph in WHICH if rows[ph]), "one-loss-per-kind", seen)


class Orders:
    """Arbitrary outcomes of torch.randperm / randint."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def _draw(self, m, lo, hi):
        self.n += 1
        return [self.ctx.int("r%d_%d" % (self.n, i), lo, hi) for i in range(m)]

    def permutation(self, n):
        p = self._draw(n, 0, n - 1)
        for i in range(n):
            for j in range(i):
                self.ctx.assume(p[i] != p[j])
        return tens(self.ctx, p)

    def integers(self, lo, hi, shape):
        m = 1
        for s in shape:
            m *= s
        t = tens(self.ctx, self._draw(m, lo, hi - 1))
        return t.view(*shape) if len(shape) != 1 else t


def install_orders(ctx, mod):
    o = Orders(ctx)
    if ctx.symbolic:
        from engine.torchshim import SHIM

        SHIM.rand = o
        ctx.cleanups.append(SHIM.reset)
        return
    import torch

    olds = torch.randperm, torch.randint, torch.multinomial
    torch.randperm = lambda n, **k: o.permutation(int(n))

    def randint(low, high=None, size=None, **k):
        if high is None or isinstance(high, (tuple, list)):
            low, high, size = 0, low, size if size is not None else high
        return o.integers(int(low), int(high), tuple(size))

    torch.randint = randint
    torch.multinomial = lambda w, n, replacement=False, **k: o.integers(0, w.shape[-1], (n,)) if replacement else o.permutation(w.shape[-1])[:n]

    def undo():
        torch.randperm, torch.randint, torch.multinomial = olds

    ctx.cleanups.append(undo)


@harness("C23", variants=lambda tier: [(n, i, k) for n in NAMES for i in (0, 3, 4) for k in ((2,) if tier == "quick" else (1, 2, 3))] + [(n, i, 0) for n in NAMES for i in (0, 1, 2)],
         modules=MODULES, torch=True, covers=("fewer", "whole"), bounds="two games of two rounds with 1..6 decisions of a kind and batches of up to 2 (thorough: 1..3) drawn in any order, or the whole batch")
def batches(ctx, M, name, i, size):
    shim(ctx)
    mod = module(M, name)
    games, tokens, points = games_of(ctx, M, PLAN[i])
    install_orders(ctx, mod)
    model = new_model(M, name)
    log, seen = [], []

    def enc(*a, **k):
        seen.append(list(a) + list(k.values()))
        return unknown(ctx, (int(a[0].shape[0]) if a else 1, SEQ, mod.EMBD_SIZE))

    def dec(enc_out=None, state_obj_tensor_batch=None, action_mask_batch=None, y_tensor=None, head=None):
        log.append((seen[-1], state_obj_tensor_batch, action_mask_batch, y_tensor, head))
        return unknown(ctx, tuple(action_mask_batch.shape)), unknown(ctx, ())

    model.encoder.forward = enc
    model.decoder.forward = dec
    out = list(model(games, tokens, sample=True, sample_size=size) if size else model(games, tokens, sample=False))
    ctx.check(len(out) == len(log) == len([ph for ph in WHICH if points[ph]]), "one-batch-per-kind", len(log))
    ctx.check(len({l[4] for l in log}) == len(log), "one-batch-per-kind", [l[4] for l in log])
    for encin, st, mask, y, head in log:
        n = len(points[head])
        t = [encin[0], st, mask, y] + encin[1:2]
        rows = batch_rows(ctx, t)
        want = min(n, size) if size else n
        ctx.cover("fewer" if want < n else "whole")
        ctx.check(len(rows) == want, "batch-size", (head, len(rows), want))
        ctx.check(mask.shape[1] == WIDTH[head], "head-of-its-kind", (head, mask.shape))
        for row in rows:
            ctx.check(Or([same_row(ctx, name, row, p, WIDTH[head]) for p in points[head]]), "row-of-one-decision", head)
        ids = [row.x2[0][0] for row in rows]
        for a in range(len(ids)):
            for b in range(a):
                ctx.check(ids[a] != ids[b], "row-used-twice", head)


# ------------------------------------------------------------------------ C34
def short_batches(ctx, mod, T):
    """event sequences cut to the first T positions once the batches are built"""
    cls = mod.TransformerTensorProcessor
    real = cls.prepare_batches

    def prepare(self, *a, **k):
        return tuple((part[0][:, :T] if part[0].ndim == 2 else part[0],) + tuple(part[1:]) for part in real(self, *a, **k))

    cls.prepare_batches = prepare
    ctx.cleanups.append(lambda: setattr(cls, "prepare_batches", real))


def layers_on(ctx):
    shim(ctx)
    if ctx.symbolic:
        from engine.torchshim import LAYERS, SHIM

        LAYERS.start()
        ctx.cleanups.append(SHIM.reset)


def spread_weights(ctx, model):
    """concrete run: weights large enough for every influence to show"""
    if not ctx.symbolic:
        import torch

        g = torch.Generator().manual_seed(5)
        with torch.no_grad():
            for p in model.parameters():
                if p.ndim > 1:
                    p.copy_(torch.randn(p.shape, generator=g) * (2.0 / p.shape[-1]) ** 0.5)


def layer_facts(ctx):
    """what is known of the layers' results so far"""
    if ctx.symbolic:
        from engine.torchshim import LAYERS

        ctx.assume(And([core_bool(f) for f in LAYERS.facts]))
        LAYERS.facts = []


def core_bool(e):
    from engine.core import SymBool

    return SymBool(e)


class Point:
    """One decision of each kind by one player, with symbolic events and states"""

    def __init__(self, ctx, M, pre, player, T):
        self.ctx, self.M, self.player = ctx, M, player
        kinds = ("discard", "post", "dora", "during", "riichi", "discard")
        self.tokens = [token_of(ctx, kinds[(i + player) % len(kinds)], "%se%d_" % (pre, i))[0] for i in range(T)]
        self.shown = {DURING: max(T - 2, 1), DISCARD: max(T - 1, 1), POST: T}
        for ph in WHICH:
            self.__dict__.update({
                ("hand", ph): [ctx.int("%s%sh%d" % (pre, ph, k), 1 if k in (1, 7) else 0, 4) for k in range(37)],
                ("pov", ph): [ctx.int("%s%su%d" % (pre, ph, k), 0, 4) for k in range(37)],
                ("score", ph): ctx.int("%s%sscore" % (pre, ph), 0, 1000),
                ("honba", ph): ctx.int("%s%shonba" % (pre, ph), 0, 20),
            })

    def but(self, over):
        p = Point.__new__(Point)
        p.__dict__.update(self.__dict__)
        p.__dict__.update(over)
        return p

    def turns(self):
        ctx, M, pl = self.ctx, self.M, self.player
        get, turn = self.__dict__.get, M("turn")
        who = (pl + 1) % 4

        def s(ph, whose):
            return state(ctx, M, whose, pl, hand=make_arr(ctx, get(("hand", ph))), remaining_tiles_pov=make_arr(ctx, get(("pov", ph))), scores=[get(("score", ph)), 251, 252, 253], honba=get(("honba", ph)))

        own, _ = own_offers(ctx, M, pl, 1, 0, "", -1)
        dec = [[[], [], []] for _ in range(4)]
        dec[who], _ = response_offers(ctx, M, who, 1, "", -1)
        at = self.shown
        return [turn.DuringTurn(pl, s(DURING, pl), own, at[DURING]), turn.DiscardTurn(pl, s(DISCARD, pl), 5, at[DISCARD]), turn.PostTurn(pl, s(POST, who), dec, at[POST])]


def answers(ctx, model, points, where):
    """{kind: rows of scores of the point at `where`}; each point is a game of its own"""
    out = {}
    for logits, loss in model([[p.turns()] for p in points], [[p.tokens] for p in points]):
        a = arr(logits)
        ctx.check(a.ndim == 2 and a.shape[0] == len(points), "one-row-per-decision", a.shape)
        ph = next(p for p in WHICH if WIDTH[p] == a.shape[1])
        out[ph] = a[where]
    ctx.check(len(out) == 3, "answers-for-every-kind", sorted(out))
    return out


def same_answers(ctx, a, b, ph):
    if ctx.symbolic:
        return And([x == y for x, y in zip(a[ph], b[ph])])
    return all(abs(x - y) <= 1e-4 * max(1.0, abs(x)) for x, y in zip(a[ph], b[ph]))


SPANS = lambda tier: (3,) if tier == "quick" else (1, 2, 3, 5, 8)
PARTS = (("hand", DISCARD), ("pov", POST), ("score", DURING), ("honba", POST), ("player", None))


def answering(ctx, M, name, T):
    layers_on(ctx)
    mod = module(M, name)
    small(ctx, mod)
    short_batches(ctx, mod, T)
    model = new_model(M, name)
    model.eval()
    spread_weights(ctx, model)
    return model


@harness("C34", variants=lambda tier: [(n, T, k) for n in NAMES for T in SPANS(tier) for k in (1, 2)], modules=MODULES, torch=True, reals=True,
         bounds=lambda tier: "a decision of each kind alone, first of two and second of three games, for every content of up to %d events and every hand, unseen tiles, points and honba, in evaluation mode; embedding width 8; layers as arbitrary functions of the vectors they are given" % max(SPANS(tier)))
def batch_mates(ctx, M, name, T, k):
    model = answering(ctx, M, name, T)
    a, b, c = (Point(ctx, M, "p%d_" % i, i, T) for i in range(3))
    alone = answers(ctx, model, [a], 0)
    other = answers(ctx, model, [a, b] if k == 1 else [b, a, c], 0 if k == 1 else 1)
    layer_facts(ctx)
    for ph in WHICH:
        ctx.check(same_answers(ctx, alone, other, ph), "batch-changes-nothing", ph)


@harness("C34", variants=lambda tier: [(n, T, w) for n in NAMES for T in SPANS(tier) for w in tuple(range(T)) + PARTS], modules=MODULES, torch=True, reals=True,
         bounds=lambda tier: "two inputs that differ in one of up to %d events, a tile count of the hand or of the unseen tiles, a score, the honba, or (ordered model) the deciding player: the answers they concern can differ, the others cannot" % max(SPANS(tier)))
def every_input(ctx, M, name, T, what):
    model = answering(ctx, M, name, T)
    a, b = Point(ctx, M, "p_", 1, T), Point(ctx, M, "q_", 1, T)
    if isinstance(what, int):
        ctx.assume(a.tokens[what] != b.tokens[what])
        c = a.but({"tokens": [(b if i == what else a).tokens[i] for i in range(T)]})
        on = [ph for ph in WHICH if a.shown[ph] > what]
    elif what[0] == "player":
        c = a.but({"player": 2})
        on = list(WHICH) if name == "transformer_conv_ordered" else []
    else:
        x, y = a.__dict__[what], b.__dict__[what]
        ctx.assume(x[7] >= y[7] + 2 if isinstance(x, list) else x >= y + 3)
        c = a.but({what: y if not isinstance(x, list) else [y[i] if i == 7 else v for i, v in enumerate(x)]})
        on = [what[1]]
    one, two = answers(ctx, model, [a], 0), answers(ctx, model, [c], 0)
    layer_facts(ctx)
    for ph in WHICH:
        if ph not in on:
            if what != ("player", None):
                ctx.check(same_answers(ctx, one, two, ph), "input-of-another-decision", (what, ph))
        elif ctx.symbolic:
            ctx.check(not ctx.always(same_answers(ctx, one, two, ph)), "input-matters", (what, ph))
        else:
            ctx.check(any(x != y for x, y in zip(one[ph], two[ph])), "input-matters", (what, ph))
