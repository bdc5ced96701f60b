"""C15: what the scoring library is told, and what is made of its answer."""
import inspect

from mahjong.agari import Agari
from mahjong.constants import EAST
from mahjong.hand_calculating.hand import HandCalculator
from mahjong.hand_calculating.hand_response import HandResponse
from mahjong.meld import Meld

from engine.core import And, Or, Not, Implies, Iff, ite, Sum, is_sym
from engine.runner import harness
from . import spec
from .spec import CHI, PON, KAKAN, MINKAN, ANKAN
from .play import Play, Sub, no_calls, far_from_ready, REDS
from .rounds import pairs

MODS = ("utils.agari", "process_xml", "gameinfo", "draw")
SIG = inspect.signature(HandCalculator.__dict__["estimate_hand_value"].__func__ if isinstance(HandCalculator.__dict__["estimate_hand_value"], staticmethod) else HandCalculator.estimate_hand_value)


class Eval:
    def __init__(self, a):
        self.__dict__.update(a)


def record(ctx, log):
    """The library answers 'not winning' for incomplete hands and anything for others."""

    value = ctx.bool("value")

    def estimate(*a, **k):
        if a and isinstance(a[0], HandCalculator):
            a = a[1:]
        e = Eval(SIG.bind(*a, **k).arguments)
        e.tiles = list(e.tiles)
        e.melds = list(getattr(e, "melds", None) or [])
        e.doras = list(getattr(e, "dora_indicators", None) or [])
        e.complete = complete([ctx.concretize(t) for t in e.tiles], [[ctx.concretize(t) for t in m.tiles] for m in e.melds])
        n = sum(x.complete for x in log)
        e.ok = bool(e.complete and bool(value) == (n % 2 == 0))
        log.append(e)
        if e.ok:
            return HandResponse(cost={"main": 1000, "additional": 0, "total": 1000}, han=1, fu=30)
        return HandResponse(error="no_yaku" if e.complete else "hand_not_winning")

    old = HandCalculator.__dict__["estimate_hand_value"]
    ctx.cleanups.append(lambda: setattr(HandCalculator, "estimate_hand_value", old))
    HandCalculator.estimate_hand_value = staticmethod(estimate)


def complete(tiles, melds):
    c = [0] * 34
    for t in tiles:
        c[t // 4] += 1
    if any(x > 4 for x in c):
        return False
    sets = [sorted(t // 4 for t in m) for m in melds]
    for m in sets:
        for k in m:
            if c[k] == 0:
                return False
            c[k] -= 1
    n = sum(c)
    return n % 3 == 2 and Agari.is_agari(c)


def full_hand(snap, q, tile=None):
    s = snap.hands[q]
    add = list(s.add) + [t for m in snap.melds[q] for t in tiles_of(m)] + ([] if tile is None else [tile])
    return Sub(add, s.rem)


def tiles_of(m):
    """all tiles of a meld, an added kan with those of its pon"""
    return m.tiles if m.typ in (CHI, PON) else [m.kind * 4 + c for c in range(4)]


def held(e, hand):
    """the library was given exactly these tiles (kinds and red fives)"""
    got = Sub(e.tiles, [])
    conds = []
    for k in range(37):
        conds.append(got.count(k) == hand.count(k))
    return And(conds)


TYPE = {CHI: Meld.CHI, PON: Meld.PON, KAKAN: Meld.SHOUMINKAN, MINKAN: Meld.KAN, ANKAN: Meld.KAN}


def melds_match(ctx, e, melds):
    ctx.check(len(e.melds) == len(melds), "melds", (len(e.melds), len(melds)))
    for m in melds:
        alts = []
        for got in e.melds:
            kan_ok = got.type == TYPE[m.typ] or (m.typ == KAKAN and got.type == Meld.KAN)
            if not kan_ok or len(got.tiles) != len(tiles_of(m)):
                alts.append(False)
                continue
            if bool(got.opened) != (m.typ != ANKAN):
                alts.append(False)
                continue
            a, b = Sub(got.tiles, []), Sub(tiles_of(m), [])
            alts.append(And([a.count(k) == b.count(k) for k in range(37)]))
        ctx.check(Or(alts), "meld", (m.typ, m.code))


def truth(x):
    return x != 0 if is_sym(x) else bool(x)


def flags(ctx, cfg, want):
    for f, w in want.items():
        if w is None:
            continue
        g = getattr(cfg, f)
        ctx.check(Iff(truth(g), w), f, (g, w))


def options(ctx, cfg):
    o = cfg.options
    for f, w in (("has_open_tanyao", True), ("has_aka_dora", True), ("renhou_as_yakuman", False), ("has_daisharin", False), ("has_double_yakuman", True)):
        ctx.check(bool(getattr(o, f)) == w, "rules", f)


# scripts; seats count from the dealer
N = "28|92"  # tiles nobody waits for
WINS = {
    # first turns, nobody called
    "first-turn": ("T", 0, "T0=57|69|28 D0=108|57|69|28 T1=54|29 G1 T2=70|30 G2 T3=52|101 G3 T0=58|92 G0 T1=55 G1 Q"),
    "first-turn-2": ("T", 1, "T0=28 G0 T1=52|29 G1 T2=71|65 D2=110|71|65 T3=66|54 G3 T0=92 G0 Q"),
    "first-turn-3": ("T", 3, "T0=28 G0 T1=57|93 G1 T2=29 D2=132|116 T3=58|52 G3 T0=59 G0 T1=92 G1 Q"),
    # a concealed kan in the first turn ends it, and the replacement wins
    "kan-first-turn": ("T", 2, "T0=28 G0 T1=29 G1 T2=92 G2 T3=27 A3 X=35|34 T3=52|65|30 D3=65|30|52|60 T0=57|69 G0 T1=54 G1 Q"),
    "kan-first-player": ("T", 1, "T0=28 G0 T1=30 G1 T2=93 G2 T3=91|27 A3 T3=65|94 X=34 D3=60|56|94 T0=69|101 G0 T1=54|92 D1=53|92 T2=121 G2 Q"),
    # riichi, one-shot, after one-shot, interrupted, double
    "riichi": ("T", 0, "T0=28 R0 D0=28 r0 T1=57|29 G1 T2=30 D2=128 T3=65|101 G3 T0=58|92 G0 T1=69|93 G1 T2=94 G2 T3=59|66 G3 T0=70|95 G0 Q"),
    "late-riichi": ("T", 3, "T0=28 G0 T1=29 G1 T2=30 G2 T3=101 G3 T0=92 R0 D0=92 r0 T1=54|57 R1 D1=54|57|53 r1 T2=69|93 G2 T3=52|65 G3 T0=58 G0 T1=55 G1 Q"),
    "riichi-kan": ("T", 2, "T0=28 R0 D0=28 r0 T1=29 G1 T2=93 G2 T3=91|27 A3 X=34 T3=66|94 D3=56|66|94 T0=57|30 G0 T1=58|101 G1 Q"),
    "riichi-own-kan": ("T", 1, "T0=28 G0 T1=29 G1 T2=93 G2 T3=30 R3 D3=30 r3 T0=101 G0 T1=103 G1 T2=95 G2 T3=27|91 A3 X=35|34 T3=66|52 G3 Q"),
    # open hands
    "pon": ("T", 0, "T0=28 G0 T1=29 G1 T2=30 D2=132 P3 D3=56|88 T0=57|69 G0 T1=54 G1 T2=93 G2 T3=52|65|58|134 D3=52|65|58|134 T0=59 G0 T1=55 G1 Q"),
    "pon-kan": ("T", 2, "T0=28 G0 T1=29 G1 T2=30 D2=132 P3 D3=88|60 T0=101 G0 T1=93 G1 T2=94 G2 T3=135 K3 T3=65|52|95 X=34 G3 T0=57 G0 Q"),
    "open-kan": ("T", 1, "T0=28 G0 T1=27|91 G1 M3 T3=66|52|57 X=34 D3=66|52|60 T0=58 G0 T1=54 G1 Q"),
    "red-kan": ("U", 0, "T0=126 D0=52 P3 D3=68|56 T0=31|70 G0 T1=69|92 G1 T2=65 G2 T3=55 K3 T3=71|66 X=35 D3=71|66|68 T0=67 G0 Q"),
    "red-added": ("V", 2, "T0=126 D0=53 P3 D3=68 T0=71 G0 T1=69 G1 T2=65 G2 T3=52|31 K3 T3=66|52 D3=66|52 Q"),
    "red-kan-riichi": ("U", 2, "T0=126 D0=52 P3 D3=68 T0=71 G0 T1=69 R1 D1=69|100 r1 T2=97 R2 D2=97 r2 T3=55 K3 T3=66|70 D3=66|70 Q"),
    "black-kan": ("U", 3, "T0=55 D0=55 P3 D3=68 T0=71|52 G0 T1=69 G1 Q"),
    "no-kan-win": ("U", 1, "T0=126 D0=52 P3 D3=68 T0=31 G0 T1=57 D1=57|44 T2=65 D2=65|56 T3=55|67 D3=55|67 T0=66 G0 T1=40 G1 T2=41 G2 Q"),
    # discards that make a player unable to ron
    "furiten": ("T", 0, "T0=57 D0=57|60 T1=58|52 G1 T2=69 G2 T3=54|70 G3 T0=28 G0 T1=55 G1 T2=59|30 G2 T3=65 G3 Q"),
    "furiten-red": ("T", 1, "T0=28 G0 T1=52 D1=52|53 T2=55 G2 T3=54|66 G3 T0=65|67 G0 T1=30 G1 Q"),
    # the end of the wall
    "last-draw": ("T", 0, "E68 T0=57|30 D0=57|30|108 T1=54|58 D1=54|58|53 Q"),
    "last-draw-2": ("T", 2, "E69 T1=54|57|69 D1=54|57|69|53 Q"),
    "last-draw-riichi": ("T", 3, "E66 T2=30 R2 D2=30 r2 T3=66|57 G3 T0=58|70 G0 T1=52|54|69 G1 Q"),
    "last-draw-kan": ("T", 1, "E67 T3=27|91 A3 T3=66|52|57 X=34 D3=66|52|57|56 T0=58|69 G0 Q"),
    "last-replacement": ("T", 2, "E67 T3=28 G3 T0=29 G0 Q"),
    "last-tile-kan": ("T", 0, "E65 T1=28 G1 T2=29 G2 T3=30 G3 T0=92 G0 T1=93 G1 Q"),
    "last-is-replacement": ("T", 3, "E66 T2=57 G2 T3=27 A3 X=34 T3=52|66|28 D3=52|66|28|60 T0=58|69 G0 Q"),
    "replacement-is-last": ("T", 2, "E67 T3=27 A3 T3=66|28 X=34 D3=66|28 T0=57 G0 Q"),
    "kan-on-last-draw": ("T", 0, "E67 T3=91|27 A3 T3=66 G3 T0=57 G0 Q"),
    "all-drawn-by-kan": ("T", 1, "E64 T0=28 G0 T1=29 G1 T2=30 G2 T3=27 A3 X=34 T3=91 A3 X=127 T3=66|52 D3=66|52|60 Q"),
}


def variants(tier):
    return [(k,) for k in WINS]


COVERS = ("ron", "tsumo", "ron:riichi", "tsumo:riichi", "one-shot", "double-riichi", "rinshan", "chankan", "haitei", "houtei", "tenhou", "chiihou", "renhou", "furiten", "open", "library-refuses", "robbed-or-replaced", "kan-last") + tuple("played:" + k for k in WINS)


@harness("C15", variants=variants, covers=COVERS, modules=MODS, validate=4,
         assumes=("the scoring library answers 'not winning' for incomplete hands; any answer for complete ones",),
         bounds=lambda tier: "%d scripted rounds (of two deals in which all players are one tile from a win) with 2-4 alternatives per draw and discard; points, honba, sticks and prevailing wind symbolic; library answers symbolic" % len(variants(tier)))
def win_checks(ctx, M, name):
    log = []
    record(ctx, log)
    no_calls(ctx, M)
    far_from_ready(ctx)
    deal, dealer, text = WINS[name]
    pl = Play(ctx, M, deal, dealer, scalars=True)
    pl.script(text)
    ctx.cover("played:" + name)
    halfturns, _ = pl.run()
    i = 0
    D = M("decision").Decision
    for h, p in pairs(ctx, pl, halfturns[0]):
        r = p.snap
        if p.kind == "discard":
            continue
        if p.kind == "during":
            who = [p.player]
            tile = None
            got = {p.player: list(h.decisions[0])}
        else:
            who = [q for q in range(4) if q != p.player]
            tile = p.tile
            got = {q: list(h.decisions[q][0]) for q in range(4)}
            ctx.check(not got[p.player], "offered-to-discarder")
        for q in who:
            furiten = tile is not None and bool(Or([t // 4 == tile // 4 for t in r.discards[q]]))
            hand = full_hand(r, q, tile)
            e = log[i] if i < len(log) else None
            if e is not None and e.config.is_tsumo == (tile is None) and bool(held(e, hand)):
                i += 1
                ctx.check(Or([e.win_tile == t for t in e.tiles]), "winning-tile-in-hand")
                ctx.check(e.win_tile // 4 == (p.drawn if tile is None else tile) // 4, "winning-tile", e.win_tile)
                melds_match(ctx, e, r.melds[q])
                circumstances(ctx, pl, p, q, tile, e, r)
                ok = e.ok
            else:
                ctx.check(furiten or not really_complete(ctx, hand, r.melds[q]), "win-not-evaluated", (p.kind, q))
                ok = False
            want = ok and not furiten
            ctx.cover("furiten", furiten and really_complete(ctx, hand, r.melds[q]))
            if e is not None:
                ctx.cover("library-refuses", e.complete and not e.ok)
            ctx.check(len(got[q]) == int(want), "win-offered", (p.kind, q, len(got[q]), want))
            for d in got[q]:
                ctx.check(And(d.player == q, d.type == D.AGARI), "names-player")
                ctx.check(Not(d.executed), "not-executed")
    ctx.check(i == len(log), "evaluated-as-held", (i, len(log)))


def really_complete(ctx, hand, melds):
    c = [ctx.concretize(hand.count(k)) for k in range(34)]
    for m in melds:
        for t in tiles_of(m):
            c[ctx.concretize(t // 4)] -= 1
    return sum(c) % 3 == 2 and min(c) >= 0 and Agari.is_agari(c)


def circumstances(ctx, pl, p, q, tile, e, r):
    cfg = e.config
    tsumo = tile is None
    last = r.draws == 70
    first = p.kind != "chankan" and p.uninterrupted
    rel = (q - pl.dealer) % 4
    rinshan = tsumo and p.rinshan
    double = bool(r.double[q])
    want = dict(
        is_tsumo=tsumo,
        is_riichi=None if double else truth(r.reach[q]),
        is_daburu_riichi=double,
        is_ippatsu=None if p.kind == "chankan" else truth(ippatsu(pl, p, r, q)),
        is_rinshan=rinshan,
        is_chankan=p.kind == "chankan",
        is_haitei=tsumo and last and not rinshan,
        is_houtei=p.kind == "post" and last,
        is_tenhou=tsumo and first and r.draws == 1,
        is_chiihou=tsumo and first and 2 <= r.draws <= 4,
        is_renhou=p.kind == "post" and first and rel >= r.draws,
    )
    flags(ctx, cfg, want)
    ctx.check(cfg.player_wind == EAST + rel, "seat-wind", (cfg.player_wind, rel))
    ctx.check(cfg.round_wind == EAST + pl.round // 4, "prevailing-wind", cfg.round_wind)
    ctx.check(cfg.kyoutaku_number == r.kyotaku, "sticks")
    ctx.check(cfg.tsumi_number == r.honba, "honba")
    ctx.check(len(e.doras) == len(r.indicators), "dora", (len(e.doras), len(r.indicators)))
    for a, b in zip(e.doras, r.indicators):
        ctx.check(a == b, "dora", (a, b))
    options(ctx, cfg)
    if not e.complete:
        return
    ctx.cover("tsumo" if tsumo else "ron")
    ctx.cover(("tsumo" if tsumo else "ron") + ":riichi", bool(r.reach[q]))
    ctx.cover("one-shot", want["is_ippatsu"] is True)
    ctx.cover("double-riichi", double)
    for f in ("rinshan", "chankan", "haitei", "houtei", "tenhou", "chiihou", "renhou"):
        ctx.cover(f, want["is_" + f])
    ctx.cover("open", any(m.typ != ANKAN for m in r.melds[q]))
    ctx.cover("robbed-or-replaced", rinshan or p.kind == "chankan")
    ctx.cover("kan-last", rinshan and last)


def ippatsu(pl, p, r, q):
    return r.ippatsu[q] if r.reach[q] else 0


# ------------------------------------------------- the two functions directly
BASE_HAND = {0: 3, 5: 1, 6: 1, 7: 1, 13: 2, 20: 3, 31: 2}


def call(ctx, M, who, **k):
    a = dict(
        hand_tensors_full=k.pop("hands"),
        naki_list=k.pop("melds", [[], [], [], []]),
        doras=k.pop("doras", [133]),
        reaches=k.pop("reaches", [0] * 4),
        ippatsu=k.pop("ippatsu", [0] * 4),
        double_reaches=k.pop("double", [0] * 4),
        player_wind=k.pop("dealer", 0),
        round_wind=k.pop("wind", 0),
        kyotaku=k.pop("sticks", 0),
        honba=k.pop("honba", 0),
    )
    A = M("utils.agari")
    if "tsumo_tile" in k:
        return A.evaluate_tsumo(player=who, tsumo_tile=k["tsumo_tile"], is_haitei=k.get("last", False), is_rinshan=k.get("rinshan", False), is_tenhou=k.get("tenhou", False), is_chiihou=k.get("chiihou", False), **a)
    return A.evaluate_ron(player=who, discarded_tile=k["tile"], sutehai_tensor=k["discards"], is_chankan=k.get("chankan", False), is_haitei=k.get("last", False), is_renhou=k.get("renhou", [False] * 4), **a)


def answers(ctx, log, answer):
    """the library's answer is `answer(n)` for the n-th question"""

    def estimate(*a, **k):
        if a and isinstance(a[0], HandCalculator):
            a = a[1:]
        e = Eval(SIG.bind(*a, **k).arguments)
        e.tiles = list(e.tiles)
        e.melds = list(getattr(e, "melds", None) or [])
        e.doras = list(getattr(e, "dora_indicators", None) or [])
        e.ok = answer(len(log))
        log.append(e)
        return HandResponse(cost={"main": 1000, "additional": 0, "total": 1000}, han=1, fu=30) if e.ok else HandResponse(error="no_yaku")

    old = HandCalculator.__dict__["estimate_hand_value"]
    ctx.cleanups.append(lambda: setattr(HandCalculator, "estimate_hand_value", old))
    HandCalculator.estimate_hand_value = staticmethod(estimate)


def hand_array(ctx, counts):
    from .mask import make_arr

    return make_arr(ctx, [counts.get(k, 0) for k in range(37)])


def zeros(ctx, n, m):
    from .mask import make_arr
    import numpy as np

    return np.zeros((n, m), dtype=np.float32)


# a closed part that m melds complete
REST = {1: {0: 3, 5: 1, 6: 1, 7: 1, 20: 3, 31: 2}, 2: {0: 3, 5: 1, 6: 1, 7: 1, 31: 2}}


def all_combos():
    ts = spec.TYPES
    return [(t,) for t in ts] + [(a, b) for i, a in enumerate(ts) for b in ts[i:]]


def _combos(tier):
    cs = all_combos()
    if tier == "quick":
        cs = [c for c in cs if len(c) == 1] + [(CHI, PON), (CHI, ANKAN), (KAKAN, MINKAN), (PON, KAKAN)]
    return [(c, k) for c in cs for k in ("ron", "tsumo") if tier != "quick" or len(c) == 1 or k == "tsumo"]


@harness("C15", variants=_combos, modules=MODS,
         bounds="one and two melds of every type (quick: every type and four pairs of types), every well-formed code; fixed closed tiles (melds are described independently of them)")
def meld_descriptions(ctx, M, types, kind):
    log = []
    answers(ctx, log, lambda n: False)
    melds = [spec.arbitrary_meld(ctx, t, "m%d_" % i) for i, t in enumerate(types)]
    N = M("draw").Naki
    nakis = [N(m.code) for m in melds]
    me = 2
    hands = [hand_array(ctx, REST[len(types)]) for _ in range(4)]
    lists = [[] if q != me else nakis for q in range(4)]
    if kind == "ron":
        call(ctx, M, 1, hands=hands, melds=lists, tile=29, discards=zeros(ctx, 4, 37))
        e = [x for i, x in zip([q for q in range(4) if q != 1], log) if i == me]
        ctx.check(len(log) == 3, "one-evaluation-per-player", len(log))
        e = e[0]
        for q, x in zip((0, 2, 3), log):
            if q != me:
                ctx.check(x.melds == [], "melds-of-another-player")
    else:
        call(ctx, M, me, hands=hands, melds=lists, tsumo_tile=29)
        ctx.check(len(log) == 1, "one-evaluation", len(log))
        e = log[0]
    melds_match(ctx, e, melds)


def _windows(tier):
    w = [(3, 4), (4, 5), (12, 13), (13, 14), (21, 22), (22, 23), (26, 27), (0, 33), (8, 9), (17, 18)]
    return [(a, k) for a in w for k in ("ron", "tsumo")]


@harness("C15", variants=_windows, modules=MODS, covers=("red", "no-red"),
         bounds="two adjoining kinds held 0-4 times each with or without the red five, rest of the hand fixed, winning tile any copy of these kinds (not held)")
def hand_description(ctx, M, window, kind):
    log = []
    ask = ctx.bool("value")
    answers(ctx, log, lambda n: bool(ask) == (n % 2 == 0))
    counts = {k: (3 if k in (1, 10, 19, 28) else 0) for k in range(34)}
    # copies held: one symbolic bit per physical tile
    have = {}
    for k in window:
        for c in range(4):
            have[k * 4 + c] = ctx.bool("has%d" % (k * 4 + c))
        counts[k] = Sum([ite(have[k * 4 + c], 1, 0) for c in range(4)])
    for i, r in enumerate(REDS):
        counts[34 + i] = ite(have[r], 1, 0) if r in have else 0
    tile = ctx.choice("win", [k * 4 + c for k in window for c in range(4)])
    holds = Or([And(tile == t, have[t]) for t in have])
    # copies of black tiles are interchangeable
    for k in window:
        ts = [k * 4 + c for c in range(4) if k * 4 + c not in REDS]
        for a, b in zip(ts, ts[1:]):
            ctx.assume(Implies(have[b], have[a]))
    ctx.assume(holds if kind == "tsumo" else Not(holds))
    me = 1 if kind == "ron" else 3
    arr = hand_array(ctx, counts)
    other = hand_array(ctx, {1: 3, 2: 3, 3: 3, 4: 3, 5: 1})
    hands = [other if q != me else arr for q in range(4)]
    before = [list(h) for h in hands]
    if kind == "ron":
        out = call(ctx, M, 0, hands=hands, tile=tile, discards=zeros(ctx, 4, 37))
        ctx.check(len(log) == 3, "one-evaluation-per-player", len(log))
        e = log[0]
        for q in range(4):
            want = q != 0 and log[q - 1].ok
            ctx.check((out[q] is not None) == want, "win-offered", (q, want))
            if out[q] is not None:
                ctx.check(out[q].player == q, "names-player")
    else:
        out = call(ctx, M, me, hands=hands, tsumo_tile=tile)
        e = log[0]
        ctx.check(len(log) == 1 and len(out) == int(e.ok), "win-offered")
    want = {k: counts[k] for k in range(37)}
    got = Sub(e.tiles, [])
    for k in range(37):
        extra = 0
        if kind == "ron":
            extra = ite(tile // 4 == k, 1, 0) if k < 34 else ite(tile == REDS[k - 34], 1, 0)
        ctx.check(got.count(k) == want[k] + extra, "tiles-of-the-hand", (k, got.count(k)))
    ctx.check(Or([e.win_tile == t for t in e.tiles]), "winning-tile-in-hand", e.win_tile)
    ctx.check(e.win_tile // 4 == tile // 4, "winning-tile", e.win_tile)
    ctx.cover("red", Or([got.count(k) == 1 for k in (34, 35, 36)]))
    ctx.cover("no-red", And([got.count(k) == 0 for k in (34, 35, 36)]))
    for a, b in zip(before, hands):
        for k in range(37):
            ctx.check(a[k] == b[k], "hands-unmodified", k)


@harness("C15", variants=lambda tier: [(k, q) for k in ("ron", "tsumo") for q in range(4)], modules=MODS, covers=("furiten",),
         bounds="every combination of the circumstance flags per player, every dealer, wind, sticks, honba, dora indicators; fixed hands; discard records symbolic")
def circumstance_flags(ctx, M, kind, q):
    log = []
    ask = ctx.bool("value")
    answers(ctx, log, lambda n: bool(ask))
    B = lambda n: [ctx.int("%s%d" % (n, p), 0, 1) for p in range(4)]
    reaches, ipp, dbl = B("reach"), B("ippatsu"), B("double")
    dealer, wind = ctx.int("dealer", 0, 3), ctx.int("wind", 0, 3)
    sticks, honba = ctx.int("sticks", 0, 20), ctx.int("honba", 0, 20)
    doras = [ctx.int("dora%d" % i, 0, 135) for i in range(3)]
    last = ctx.bool("last")
    hands = [hand_array(ctx, {1: 3, 2: 3, 3: 3, 4: 3, 5: 1}) for _ in range(4)]
    k = dict(hands=hands, doras=doras, reaches=reaches, ippatsu=ipp, double=dbl, dealer=dealer, wind=wind, sticks=sticks, honba=honba, last=last)
    common = lambda e, p: (
        flags(ctx, e.config, dict(is_riichi=Or(reaches[p] == 1, False), is_ippatsu=ipp[p] == 1, is_daburu_riichi=dbl[p] == 1)),
        ctx.check(e.config.player_wind == EAST + (p - dealer) % 4, "seat-wind", p),
        ctx.check(e.config.round_wind == EAST + wind, "prevailing-wind"),
        ctx.check(e.config.kyoutaku_number == sticks, "sticks"),
        ctx.check(e.config.tsumi_number == honba, "honba"),
        ctx.check(And([a == b for a, b in zip(e.doras, doras)] + [len(e.doras) == 3]), "dora"),
        options(ctx, e.config),
    )
    if kind == "tsumo":
        rin, ten, chi = ctx.bool("rinshan"), ctx.bool("tenhou"), ctx.bool("chiihou")
        call(ctx, M, q, tsumo_tile=17, rinshan=rin, tenhou=ten, chiihou=chi, **k)
        ctx.check(len(log) == 1, "one-evaluation")
        e = log[0]
        flags(ctx, e.config, dict(is_tsumo=True, is_rinshan=rin, is_tenhou=ten, is_chiihou=chi, is_haitei=last, is_houtei=False, is_chankan=False, is_renhou=False))
        common(e, q)
        return
    chan = ctx.bool("chankan")
    ren = [ctx.bool("renhou%d" % p) for p in range(4)]
    tile = ctx.choice("tile", [16, 17, 30, 110])
    rec = {(p, kd): ctx.int("discarded%d_%d" % (p, kd), 0, 1) for p in range(4) for kd in (4, 7, 27)}
    from .mask import make_arr

    disc = make_arr(ctx, [rec.get((p, kd), 0) for p in range(4) for kd in range(37)]).reshape(4, 37)
    out = call(ctx, M, q, tile=tile, discards=disc, chankan=chan, renhou=ren, **k)
    i = 0
    kd = ctx.concretize(tile // 4)
    for p in range(4):
        if p == q:
            ctx.check(out[p] is None, "offered-to-discarder")
            continue
        fur = bool(rec[p, kd] == 1)
        if fur:
            ctx.check(out[p] is None, "furiten-offered", p)
            ctx.cover("furiten")
            continue
        ctx.check(i < len(log), "not-evaluated", p)
        e = log[i]
        i += 1
        flags(ctx, e.config, dict(is_tsumo=False, is_chankan=chan, is_renhou=ren[p], is_houtei=last, is_haitei=False, is_rinshan=False, is_tenhou=False, is_chiihou=False))
        common(e, p)
        ctx.check((out[p] is not None) == e.ok, "win-offered", p)
    ctx.check(i == len(log), "evaluations", (i, len(log)))
