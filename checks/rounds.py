"""C07, C09-C14: the log processor on bounded symbolic rounds."""
import numpy as np

from engine.core import And, Or, Not, Implies, Iff, ite, Sum, is_sym
from engine.runner import harness
from . import spec
from .spec import CHI, PON, KAKAN, MINKAN, ANKAN
from .play import Play, quiet, no_wins, no_calls, far_from_ready, patch, patch_shanten, REDS

MODS = ("process_xml", "draw", "decision", "turn", "state", "utils.agari", "utils.constants", "gameinfo", "result")
KIND = {"during": 0, "discard": 1, "post": 2, "chankan": 2}
ALL = ("reach", "ankan", "kakan", "dora", CHI, PON, MINKAN)

# tiles that draws and new indicators come from in the free explorations
CALLS = sorted({16, 17, 18, 19, 52, 53, 54, 55, 88, 89, 90, 91, 0, 1, 2, 3, 108, 109, 110, 111, 116, 117, 118, 119, 135, 35})
FEW = [19, 55, 107, 135, 28, 90, 123, 14, 44]
ODD = [t for t in range(136) if t % 3 == 0]
EVEN = [t for t in range(136) if t % 3 == 1]
LAST = [t for t in range(136) if t % 3 == 2]

# (deal, dealer, script); see Play.script.  Seats in scripts count from the dealer.
SCEN = {
    "pon-kakan-red": ("A", 1, "T0=19|107 D0 P3 D3 T0=37|41 G0 T1=5|33 G1 T2=42|6 G2 T3=107|19|71 K3 T3=28|90 X=126|94 D3 T0=65|115 D0 Q"),
    "pon-kakan-red2": ("A", 2, "T0=37 G0 T1=55|19 D1 P0 D0 T1=6|91 G1 T2=90 G2 T3=28|68 G3 T0=41|52|55 K0 X=126|16 T0=28|65|42 D0 T1=5 G1 Q"),
    "minkan": ("A", 2, "T0=19|107|37 D0 M3 T3=28|55 X=126|90 D3 T0=3|55 D0 T1=68|38 D1 Q"),
    "ankan-twice": ("A", 3, "T0=3|55 A0 T0=55|3|90 X=87|126 A0 X=19|107 T0=37|91 D0 T1=115 A1 T1=5|40 D1 Q"),
    "riichi-expires": ("A", 0, "T0=37|87|55 R0 D0 r0 T1=5|28 G1 T2=41|68 G2 T3=90|65 G3 T0=121|3 G0 T1=10|50 D1 Q"),
    "riichi-interrupted": ("A", 1, "T0=42|28 R0 D0 r0 T1=29|90|39 D1 C2 D2 T3=71|115 D3 T0=66|40 G0 T1=14|22 G1 Q"),
    "riichi-tile-called": ("A", 2, "T0=107|19 R0 D0 r0 P3 D3 T0=37|41 G0 T1=5|14 G1 T2=66 G2 Q"),
    "second-riichi": ("A", 3, "T0=37 G0 T1=28|90 R1 D1 r1 T2=41|14 R2 D2 r2 T3=66|122 D3 T0=6|39 G0 T1=71 G1 T2=5 G2 T3=10 G3 Q"),
    "late-riichi": ("A", 0, "T0=37 G0 T1=28 G1 T2=41 G2 T3=66 G3 T0=121|55 R0 D0 r0 T1=6|14 D1 T2=71|90 R2 D2 r2 T3=5|19 D3 T0=10 G0 Q"),
    "fourth-player-riichi": ("B", 2, "T0=0 G0 T1=4|26 G1 T2=41 G2 T3=58|1 R3 D3 r3 T0=62|94 G0 T1=66 D1 T2=106 G2 T3=118 G3 T0=43 G0 Q"),
    "riichi-after-ankan": ("A", 1, "T0=37 G0 T1=115 A1 X=90|19 T1=28|68 R1 D1 r1 T2=41|14 D2 T3=66 D3 Q"),
    "riichi-after-call": ("A", 0, "T0=107|135 D0 P3 D3 T0=37|41 R0 D0 r0 T1=28 G1 T2=14|66 G2 Q"),
    "riichi-ankan": ("A", 2, "T0=37|41 R0 D0 r0 T1=28 G1 T2=14 G2 T3=66 G3 T0=3|55 A0 X=19|126 T0=71|90 G0 T1=5|10 D1 Q"),
    "riichi-then-kan-elsewhere": ("A", 0, "T0=37|41 R0 D0 r0 T1=115 A1 T1=28|14 X=66|55 G1 T2=71 D2 T3=5 G3 T0=10 G0 Q"),
    "chi-chain": ("A", 0, "T0=37|41 D0 C1 D1 C2 D2 T3=28|3 D3 T0=14|121 D0 Q"),
    "chi-red": ("B", 3, "T0=14|22|44 D0 C1 D1 T2=65|7 D2 Q"),
    "late-pon-chi": ("B", 1, "T0=123|29 D0 P1 D1 T2=35|5 D2 C3 D3 T0=106|62 D0 Q"),
    "two-pons-kakan": ("A", 0, "T0=19 D0=104 P3 D3 T0=37 D0=19 P3 D3 T0=41 G0 T1=28 G1 T2=66 G2 T3=107|71 K3 T3=5|10 D3 Q"),
}
END = {
    "wall-end": ("A", 0, "E66 T2=19|41 D2=41|19|45 T3=107|37 D3=107|36 T0=28|3 D0=60|28|53 T1=90|5 D1=5|90|61 Q"),
    "wall-end-call": ("A", 0, "E66 T2=19|107 D2=19|107 P3 D3=36|12 T0=28|3 D0=60|28|53 T1=90|5 D1=5|61 T2=40 D2=40|45|64 Q"),
    "wall-end-riichi": ("B", 3, "E66 T2=62 R2 D2=62|64 r2 T3=0|2 D3=0|2|8 T0=44 G0 T1=123|14 D1 Q"),
    "wall-end-kan": ("A", 1, "E67 T3=19|37 D3=37|36 T0=55|3 A0 T0=91|60 D0=91|60|53 Q"),
}
SCEN.update(END)
# narrow versions: the tiles that do not matter are fixed
SCEN_NARROW = {
    "n-pon": ("A", 0, "T0=107|135|55|19 D0 P3 D3=36|12 T0=37 G0 Q"),
    "n-pon-shimocha": ("B", 1, "T0=123|29|87 D0 P1 D1=40|72 T2=35 G2 Q"),
    "n-pon-toimen": ("A", 3, "T0=119|46|98|27 D0 P2 D2=32|64 Q"),
    "n-pon-called-red": ("B", 2, "T0=0 G0 T1=28|9 D1=52|17|28 P2 D2=124|8 T3=37 G3 Q"),
    "n-kakan-red": ("A", 1, "T0=19|107 D0=19|107|60 P3 D3=36|120 T0=37 G0 T1=5 G1 T2=42 G2 T3=107|19|71 K3 T3=28 X=126 D3=12|28 T0=65 G0 Q"),
    "n-minkan": ("A", 2, "T0=19|107|37 D0=19|37|107 M3 T3=28|55 X=126 D3=28|36 T0=3 D0=3|108 T1=68 G1 Q"),
    "n-minkan-red": ("A", 0, "T0=37 G0 T1=55|28 D1=55|56 M0 X=3 T0=41|2 D0=0|2|108 Q"),
    "n-chi": ("A", 0, "T0=37|41 D0 C1 D1=124|88|48 Q"),
    "n-chi-red": ("B", 3, "T0=14|22|44 D0 C1 D1=72|130 T2=65 G2 Q"),
    "n-chi-red2": ("B", 0, "T0=28 G0 T1=80|0 D1=48|56|52|80|84 C2 D2=8|69 Q"),
    "n-ankan": ("A", 1, "T0=3|55 A0 T0=28|90 X=19 D0=28|84 Q"),
    "n-riichi-ankan": ("A", 2, "T0=37 R0 D0=37|60 r0 T1=28 G1 T2=14 G2 T3=66 G3 T0=3|55 A0 X=19 T0=71 G0 T1=5 D1=61|5 Q"),
    "n-two-riichi": ("A", 3, "T0=37 G0 T1=28 R1 D1=28|61 r1 T2=41 R2 D2=41|49|45 r2 T3=66 D3=12|62|16 T0=6 D0=6|60|52 Q"),
    "n-two-pons": ("A", 0, "T0=19 D0=104 P3 D3=36|62 T0=37 D0=19|37 P3 D3=36|120|62 T0=41 G0 T1=28 G1 T2=66 G2 T3=107|71 K3 T3=5 G3 Q"),
}
SCEN.update(SCEN_NARROW)
# the dealt tiles and the first indicator
SCEN_DEALT = {
    "dealt-indicator": ("A;I=52|16|88|133|30", 1, "T0=37 G0 T1=5 Q"),
    "dealt-hands": ("B;00=16|35|107;14=52|11;22=88|107;35=64|57|41", 2, "T0=28 G0 T1=71 D1 Q"),
}
SCEN.update(SCEN_DEALT)
NARROW = list(SCEN_NARROW) + list(END)
QUICK = ["pon-kakan-red", "minkan", "ankan-twice", "riichi-expires", "riichi-interrupted", "riichi-tile-called", "second-riichi", "late-riichi", "fourth-player-riichi", "riichi-after-ankan", "riichi-after-call", "riichi-ankan", "riichi-then-kan-elsewhere", "chi-chain", "late-pon-chi"] + list(SCEN_DEALT)


def played(variants):
    return tuple(sorted({"played:" + (v[0] if isinstance(v[0], str) else "free") for v in variants("quick")}))


def start(ctx, M, sc, **k):
    """Play one scenario: a name of SCEN, or (deal, dealer, free events, pool)."""
    if isinstance(sc, str):
        deal, dealer, text = SCEN[sc]
        pl = Play(ctx, M, deal, dealer, **k)
        pl.script(text, ALL)
    else:
        deal, dealer, n, pool = sc
        pl = Play(ctx, M, deal, dealer, pool=pool, **k)
        pl.free(n, ALL)
        pl.RYU()
    ctx.cover("played:" + (sc if isinstance(sc, str) else "free"))
    return pl


def pairs(ctx, pl, halfturns):
    """Recorded decision points, matched with the reference ones."""
    ctx.check(len(halfturns) == len(pl.points), "number-of-decision-points", (len(halfturns), len(pl.points)))
    for h, p in zip(halfturns, pl.points):
        ctx.check(h.type_ == KIND[p.kind], "kind-of-decision-point", (h.type_, p.kind))
        ctx.check(h.player == p.player, "player-of-decision-point", (h.player, p.player))
        yield h, p


def vec(x, n):
    v = [e for e in np.asarray(x, dtype=object).flat] if not isinstance(x, list) else x
    assert len(v) == n, (len(v), n)
    return v


def states(ctx, pl, halfturns):
    """Own-turn decision points (draw and discard) with the table they should show."""
    for h, p in pairs(ctx, pl, halfturns):
        if p.kind in ("during", "discard"):
            yield h, p


def full(tier, names=QUICK, quick_free=(("A", 0, 3, CALLS), ("B", 1, 3, CALLS)), thorough_free=None):
    if tier == "quick":
        return [(n,) for n in names] + [(tuple(f),) for f in quick_free]
    if thorough_free is None:
        thorough_free = [(d, s, 5, CALLS) for d in "AB" for s in range(4)] + [(d, s, 3, pool) for d in "AB" for s, pool in enumerate((ODD, EVEN, LAST))]
    return [(n,) for n in SCEN] + [(f,) for f in thorough_free]


def bounds(extra=""):
    def f(tier):
        return (
            "rounds from two fixed deals, one per variant; %s scripted event sequences of 8-16 events (draws, discards, riichi, chi, pon, all kans, dora) "
            "with symbolic tiles (draws/indicators from stated sets of 1-4 tiles, discards from the whole hand, calls over every legal meld code) and every legal sequence of "
            "%s%s" % (len(QUICK) if tier == "quick" else len(SCEN), "3 events over a 26-tile pool" if tier == "quick" else "5 events over a 26-tile pool from every dealer seat, 3 events over the whole tile set", extra)
        )

    return f


# ------------------------------------------------------------ C10 accounting
@harness("C10", variants=full, covers=played(full), modules=MODS, validate=7, bounds=bounds())
def accounting(ctx, M, sc):
    quiet(ctx, M)
    pl = start(ctx, M, sc)
    halfturns, _ = pl.run()
    seen = {}
    for h, p in states(ctx, pl, halfturns[0]):
        s, r = h.stateObj, p.snap
        if seen.get(id(r)) is s:
            continue
        seen[id(r)] = s
        ctx.check(s.player == r.player, "state-player")
        hand, glob, pov = vec(s.hand_tensor, 37), vec(s.remaining_tiles, 37), vec(s.remaining_tiles_pov, 37)
        sut = np.asarray(s.sutehai_tensors, dtype=object)
        for k in range(37):
            all_ = 4 if k < 34 else 1
            ctx.check(hand[k] == r.hand.count(k), "hand", (p.kind, p.player, k, hand[k]))
            ctx.check(pov[k] == all_ - r.visible.count(k), "unseen-by-player", (p.kind, p.player, k, pov[k]))
            ctx.check(glob[k] == all_ - r.gone.count(k), "undrawn", (p.kind, p.player, k, glob[k]))
        for q in range(4):
            for k in range(37):
                was = Or([(t // 4 == k) if k < 34 else (t == REDS[k - 34]) for t in r.discards[q]])
                ctx.check(sut[q, k] == ite(was, 1, 0), "discard-record", (p.kind, q, k))


# ------------------------------------------------------------- C11 draws left
def _draw_variants(tier):
    return full(tier) + ([(n,) for n in END] if tier == "quick" else [])


@harness("C11", variants=_draw_variants, covers=played(_draw_variants), modules=MODS, validate=5, bounds=bounds())
def remaining_draws(ctx, M, sc):
    quiet(ctx, M)
    pl = start(ctx, M, sc)
    halfturns, _ = pl.run()
    for h, p in states(ctx, pl, halfturns[0]):
        ctx.check(h.stateObj.remaining_tsumo == 70 - p.snap.draws, "remaining-draws", (p.kind, h.stateObj.remaining_tsumo, p.snap.draws))
        ctx.check(h.stateObj.remaining_turns == 70 - p.snap.draws, "remaining-turns", (p.kind, h.stateObj.remaining_turns, p.snap.draws))


# ----------------------------------------------------------------- C12 status
@harness("C12", variants=full, covers=played(full), modules=MODS, validate=5, bounds=bounds("; points, honba, riichi sticks and prevailing wind symbolic"))
def status(ctx, M, sc):
    quiet(ctx, M)
    pl = start(ctx, M, sc, scalars=True)
    halfturns, _ = pl.run()
    for h, p in states(ctx, pl, halfturns[0]):
        s, r = h.stateObj, p.snap
        for f, want in (("reaches", r.reach), ("double_reaches", r.double), ("ippatsu", r.ippatsu), ("is_menzen", r.menzen), ("scores", r.scores)):
            got = list(getattr(s, f))
            ctx.check(len(got) == 4, f)
            for q in range(4):
                ctx.check(got[q] == want[q], f, (p.kind, q, got[q], want[q]))
        ctx.check(s.kyotaku == r.kyotaku, "riichi-sticks", (p.kind, s.kyotaku, r.kyotaku))
        ctx.check(s.honba == r.honba, "honba")
        ctx.check(len(s.dora) == len(r.indicators), "indicators")
        for a, b in zip(s.dora, r.indicators):
            ctx.check(a == b, "indicators")
        for q in range(4):
            ctx.check(vec(s.parent_tensor, 4)[q] == (1 if q == pl.dealer else 0), "dealer")
            ms, want = s.melds[q], r.melds[q]
            ctx.check(len(ms) == len(want), "melds", (p.kind, q, len(ms), len(want)))
            for w in want:
                ctx.check(Or([m.naki_code == w.code for m in ms]), "melds", (p.kind, q, w.code))


# ------------------------------------------------------------ C13 token stream
@harness("C13", variants=full, covers=played(full), modules=MODS, validate=5, bounds=bounds())
def token_stream(ctx, M, sc):
    quiet(ctx, M)
    X = M("process_xml")
    idx = M("utils.constants").TILE2IDX
    pl = start(ctx, M, sc)
    halfturns, tokens = pl.run()
    ctx.check(len(halfturns) == 1 and len(tokens) == 1, "one-round")
    toks = tokens[0]
    ctx.check(len(toks) == len(pl.tokens), "one-token-per-public-event", (len(toks), len(pl.tokens)))
    for t, want in zip(toks, pl.tokens):
        if want[0] == "discard":
            w = X.discard2idx(want[1], want[2] // 4, want[3])
        elif want[0] == "reach":
            w = X.reach2idx(want[1])
        elif want[0] == "dora":
            w = X.new_dora2idx(want[1] // 4)
        else:
            w = X.naki2idx(want[1], M("draw").Naki(want[2].code))
        ctx.check(t == w, "token-of-event", (want[0], t, w))
    for h, p in pairs(ctx, pl, halfturns[0]):
        # a discard is public when others respond to it; an added kan too
        ctx.check(h.encoding_idx == len_at(p), "position", (p.kind, h.encoding_idx, len_at(p)))


def len_at(p):
    return p.pos


# ------------------------------------------------------- C14 own-turn options


def _own_variants(tier):
    return full(tier, names=["n-kakan-red", "n-two-pons", "n-pon-called-red", "ankan-twice", "n-ankan", "n-riichi-ankan", "n-chi", "riichi-after-call", "n-minkan", "n-two-riichi", "wall-end-kan"], quick_free=(("A", 0, 3, FEW), ("B", 1, 3, FEW)))


@harness("C14", variants=_own_variants, covers=played(_own_variants), modules=MODS, validate=5,
         bounds=bounds("; the shanten library is replaced by a function of the 34 counts taking the values -1, 0 and 1"), assumes=("mahjong.shanten.Shanten answers correctly for the counts it is given",))
def own_turn_options(ctx, M, sc):
    no_wins(ctx, M)
    no_calls(ctx, M)
    patch_shanten(ctx, lambda tiles, *a, **k: some_shanten(ctx, tiles))
    pl = start(ctx, M, sc)
    halfturns, _ = pl.run()
    D = M("decision").Decision
    N = M("draw").Naki
    for h, p in pairs(ctx, pl, halfturns[0]):
        if p.kind != "during":
            continue
        agari, reach, naki = h.decisions
        r = p.snap
        me = p.player
        closed = r.menzen[me] and not r.reach[me]
        # --- riichi: the ready check must have been given these counts
        if closed:
            v = some_shanten(ctx, [r.hand.count(k) for k in range(34)])
            ctx.check(Iff(v <= 0, len(reach) == 1), "riichi-offered", (v, len(reach)))
            ctx.cover("riichi-offered", v <= 0)
            ctx.cover("riichi-not-ready", v > 0)
        else:
            ctx.cover("not-closed")
        ctx.check(len(reach) <= (1 if closed else 0), "riichi-offered", (closed, len(reach)))
        for d in reach:
            ctx.check(And(d.player == me, d.type == D.REACH), "names-player")
        # --- kans
        want = 0
        for d in naki:
            ctx.check(And(d.player == me, d.type == D.NAKI), "names-player")
        offered = [(d.naki, d.naki.is_ankan(), d.naki.is_kakan()) for d in naki]
        kinds = []
        for n, ak, kk in offered:
            ctx.check(Or(ak, kk), "own-turn-call", n.naki_code)
            ctx.check(n.convenient_naki_code == N(n.naki_code).convenient_naki_code, "canonical")
        for k in range(34):
            have4 = r.hand.count(k) == 4
            cnt = Sum([ite(And(a, (n.naki_code >> 8) // 4 == k), 1, 0) for n, a, _ in offered])
            ctx.check(cnt == ite(have4, 1, 0), "concealed-kan-offered", (k, cnt))
            ctx.cover("ankan", have4)
            want = want + ite(have4, 1, 0)
        for m in r.melds[me]:
            if m.typ != PON:
                continue
            cnt = 0
            for n, _, kk in offered:
                code = n.naki_code
                same = And(kk, (code >> 9) // 3 == m.kind)
                five = spec.is_five(m.kind)
                # red five: added now, or already in the pon
                red_added = ((code >> 5) & 3) == 0
                cnt = cnt + ite(And(same, Implies(five, Iff(red_added, Not(m.red)))), 1, 0)
            n4 = count_kind(r.hand, m.kind)
            ctx.check(cnt == ite(n4 >= 1, 1, 0), "added-kan-offered", (m.kind, cnt))
            ctx.cover("kakan", n4 >= 1)
            want = want + ite(n4 >= 1, 1, 0)
        ctx.check(want == len(offered), "nothing-else-offered", (want, len(offered)))


def some_shanten(ctx, tiles):
    """A stand-in for the library's answer (-1, 0 or 1) that depends on every count."""
    tiles = list(tiles)
    ctx.check(len(tiles) == 34, "counts-passed", len(tiles))
    return Sum([(1 + k % 2) * t for k, t in enumerate(tiles)]) % 3 - 1


def count_kind(sub, kind):
    c = 0
    for t in sub.add:
        c = c + ite(t // 4 == kind, 1, 0)
    for t in sub.rem:
        c = c - ite(t // 4 == kind, 1, 0)
    return c


# ------------------------------------------------------ C06 offers in the log
@harness("C06", variants=_own_variants, covers=played(_own_variants), modules=MODS, validate=5, bounds=bounds("; offers at each discard compared with decision_mask on the reference hands (itself checked by the other harness)"))
def offers_in_play(ctx, M, sc):
    no_wins(ctx, M)
    far_from_ready(ctx)
    pl = start(ctx, M, sc)
    halfturns, _ = pl.run()
    mask = M("decision").decision_mask
    from .mask import make_arr

    for h, p in pairs(ctx, pl, halfturns[0]):
        if p.kind != "post":
            continue
        hands = [make_arr(ctx, [p.snap.hands[q].count(k) for k in range(37)]) for q in range(4)]
        red = bool(spec.is_red(p.tile))
        kind = ctx.concretize(p.tile // 4)
        want = mask(p.player, hands, kind, red)
        for q in range(4):
            got = [d.naki.convenient_naki_code for d in h.decisions[q][2]]
            exp = [] if p.snap.reach[q] or p.snap.draws == 70 else [d.naki.convenient_naki_code for d in want[q]]
            ctx.check(len(got) == len(exp), "offers", (q, len(got), len(exp)))
            for a in exp:
                ctx.check(Or([a == b for b in got]), "offers", (q, a))
            for d in h.decisions[q][2]:
                ctx.check(d.player == q, "names-caller")


# ----------------------------------------------- C07 logged choices are offered
def _follow_variants(tier):
    return full(tier, names=NARROW, quick_free=(("A", 0, 3, FEW), ("B", 1, 3, FEW)))


@harness("C07", variants=_follow_variants, covers=played(_follow_variants), modules=MODS, validate=5,
         bounds=bounds("; real call offers, wins stubbed, riichi always possible"))
def logged_choice_is_offered(ctx, M, sc):
    no_wins(ctx, M)
    patch_shanten(ctx, lambda tiles, *a, **k: 0)
    pl = start(ctx, M, sc)
    halfturns, _ = pl.run()
    N = M("draw").Naki
    for h, p in pairs(ctx, pl, halfturns[0]):
        f = p.follow
        if p.kind == "during":
            agari, reach, naki = h.decisions
            want = 1 if getattr(p, "reach", False) else 0
            ctx.check(len(reach) >= want, "riichi-offered")
            for d in reach:
                ctx.check(Iff(d.executed, bool(want)), "riichi-executed", (want,))
            if want:
                ctx.cover("riichi")
            ctx.check(len(agari) == 0, "no-win")
            follows_call(ctx, N, p, f if f and f[0] == "call" else None, {p.player: naki}, "own")
        elif p.kind in ("post", "chankan"):
            per = {q: h.decisions[q][2] for q in range(4)}
            for q in range(4):
                ctx.check(len(h.decisions[q][0]) == 0 and len(h.decisions[q][1]) == 0, "no-other-offer")
                if p.snap.reach[q]:
                    ctx.check(len(per[q]) == 0, "no-calls-in-riichi", q)
                if p.snap.draws == 70:
                    ctx.check(len(per[q]) == 0, "no-calls-on-last-discard", q)
                    ctx.cover("last-discard")
            if p.kind == "chankan":
                ctx.check(all(not v for v in per.values()), "no-calls-on-added-kan")
            follows_call(ctx, N, p, f if p.kind == "post" else None, per, "response")


def slot(n, own):
    return n.get_during_turn_filter_idx() if own else n.get_post_turn_filter_idx()


def follows_call(ctx, N, p, f, per, what):
    own = what == "own"
    if f is None:
        for q, ds in per.items():
            for d in ds:
                ctx.check(Not(d.executed), "nothing-executed-without-call", (p.kind, q))
        return
    _, who, m = f
    logged = N(m.code)
    want = slot(logged, own)
    total, right = 0, 0
    for q, ds in per.items():
        for d in ds:
            ctx.check(d.player == q, "names-caller")
            total = total + ite(d.executed, 1, 0)
            if q == who:
                same_type = Or(*[And(getattr(d.naki, t)(), getattr(logged, t)()) for t in ("is_chi", "is_pon", "is_kakan", "is_minkan", "is_ankan")])
                right = right + ite(And(d.executed, same_type, slot(d.naki, own) == want), 1, 0)
    ctx.check(right == 1, "logged-call-offered-and-executed", (p.kind, who, m.typ, m.code, right))
    ctx.check(total == 1, "exactly-one-executed", (p.kind, who, m.typ, total))
    ctx.cover("call:" + m.typ)


# a win is marked at the decision of the winner, and only there
WINS = [
    ("A", 0, "T0=37|55 D0 T1=28|5 D1 W21"),
    ("A", 1, "T0=37|55 D0 T1=28|5 W11"),
    ("A", 2, "T0=19|107|135 D0 P3 D3 W03"),
    ("A", 3, "T0=37 D0=104 P3 D3 T0=41 G0 T1=5|33 G1 T2=42|6 G2 T3=107 K3 W13"),
    ("A", 0, "T0=37|55 D0 W10 W20"),
    ("A", 1, "T0=3|55 A0 T0=28|90 X=19 W00"),
    ("A", 2, "T0=37|41 R0 D0 r0 T1=28|14 D1 W01"),
]


@harness("C07", variants=lambda tier: [(w,) for w in WINS], covers=("win:during", "win:post", "win:chankan", "double"), modules=MODS, validate=2,
         bounds="7 scripted rounds ending in a win (self-drawn, on a discard, double, robbing an added kan, after a kan, in riichi), symbolic tiles; every player's win check stubbed to offer a win")
def logged_win_is_marked(ctx, M, w):
    A = M("decision").AgariDecision
    patch(ctx, M,
          evaluate_ron=lambda player, *a, **k: [None if q == player else A(q, False) for q in range(4)],
          evaluate_tsumo=lambda player, *a, **k: [A(player, False)])
    patch_shanten(ctx, lambda tiles, *a, **k: 0)
    deal, dealer, text = w
    pl = Play(ctx, M, deal, dealer)
    pl.script(text)
    halfturns, _ = pl.run()
    n = 0
    for h, p in pairs(ctx, pl, halfturns[0]):
        wins = getattr(p, "wins", ())
        if p.kind == "during":
            offers = list(h.decisions[0])
        elif p.kind in ("post", "chankan"):
            offers = [d for q in range(4) for d in h.decisions[q][0]]
        else:
            continue
        for d in offers:
            ctx.check(Iff(d.executed, d.player in wins), "win-executed", (p.kind, d.player, wins))
            n += d.executed
        for q in wins:
            ctx.check(any(d.player == q for d in offers), "win-offered", (p.kind, q))
        if wins:
            ctx.cover("win:" + p.kind)
            ctx.cover("double", len(wins) > 1)
    ctx.check(n == text.count("W"), "each-win-marked-once", (n,))


# ------------------------------------------------------------- C09 immutability
def _cuts(tier):
    return full(tier, quick_free=(), thorough_free=[(d, s, 4, CALLS) for d in "AB" for s in (0, 2)])


FIELDS = ("hand_tensor", "remaining_tiles", "remaining_tiles_pov", "sutehai_tensors", "is_menzen", "double_reaches", "reaches", "ippatsu", "melds", "scores",
          "kyotaku", "honba", "dora", "parent_tensor", "rounds_remaining", "parent_rounds_remaining", "remaining_tsumo", "remaining_turns", "player")


def flat(v):
    if isinstance(v, np.ndarray):
        return [flat(x) for x in v.view(np.ndarray)] if v.ndim else [v.item()]
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if hasattr(v, "naki_code"):
        return ["meld", v.naki_code]
    return v


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return And([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b


def recorded(h):
    """the states kept with a decision point, with where they are kept"""
    out = []
    for name, v in sorted(vars(h).items()):
        for k, x in sorted(v.items()) if isinstance(v, dict) else enumerate(v) if isinstance(v, (list, tuple)) else [(None, v)]:
            if type(x).__name__ == "StateObject":
                out.append(((name, k), x))
    return out


@harness("C09", variants=_cuts, covers=played(_cuts), modules=MODS, validate=2, bounds=bounds("; every cut of the event list, and a following round"))
def snapshots(ctx, M, sc):
    quiet(ctx, M)
    A = M("decision").AgariDecision
    patch(ctx, M, evaluate_ron=lambda player, *a, **k: [A(q, False) if q == (player + 1) % 4 else None for q in range(4)])
    pl = start(ctx, M, sc)
    other = Play.other_round()
    all_h, all_t = pl.run(more=other)
    ctx.check(len(all_h) == 2, "two-rounds")
    final = all_h[0]
    rec = [{(k, f): flat(getattr(st, f)) for k, st in recorded(h) for f in FIELDS if hasattr(st, f)} for h in final]
    n = len(pl.events) - 1
    for cut in range(1, n + 1):
        hs, ts = pl.run(events=pl.events[:cut] + ['<RYUUKYOKU sc="250,0,250,0,250,0,250,0"/>'])
        hs = hs[0]
        ctx.check(len(hs) <= len(final), "points-only-added")
        ctx.check(And([a == b for a, b in zip(ts[0], all_t[0])]), "tokens-unchanged", cut)
        for i, h in enumerate(hs):
            now = dict(recorded(h))
            ctx.check(set(now) == {k for k, f in rec[i]}, "state-changed-later", (cut, i, "states"))
            for k, f in rec[i]:
                ctx.check(same(flat(getattr(now[k], f)), rec[i][(k, f)]), "state-changed-later", (cut, i, k, f))
            ctx.check(h.encoding_idx == final[i].encoding_idx, "position-changed-later", (cut, i))
