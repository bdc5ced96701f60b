"""C31: rounds of one log do not influence each other.  C19, from the log: what happens
later changes nothing in the samples of earlier decision points."""
import numpy as np

from engine.core import And, Or, Not, Implies, Iff, ite, is_sym
from engine.runner import harness
from .agents import DISCARD, DURING, NAMES, POST, samples, shim
from .play import Play, patch, far_from_ready, no_calls, run_log, GO_TYPE
from .rounds import ALL, MODS, QUICK, SCEN
from .view import VIEW, SHORT

# how a round may end (deal, dealer, script)
BEFORE = {
    "abort-after-draw": ("A", 1, "T0=37|55 D0=37|60 T1=28|90 Q"),
    "abort-after-kan": ("A", 0, "T0=3 A0 Q"),
    "win-after-kan": ("A", 2, "T0=19|107 D0=19|107 M3 T3=28|55 W33"),
    "robbed": ("A", 1, "T0=19 D0=19 P3 D3=36 T0=37 G0 T1=5 G1 T2=42 G2 T3=107|71 K3 W03"),
    "win-on-riichi-tile": ("B", 3, "T0=62|94 R0 D0 W20"),
    "riichi-running": ("A", 2, "T0=37|41 R0 D0 r0 T1=28|14 R1 D1 r1 Q"),
    "after-calls": ("A", 0, "T0=37|41 D0 C1 D1=48|56|61 C2 D2 Q"),
    "new-dora": ("A", 3, "T0=3 A0 X=19|126 T0=55|28 A0 X=90 T0=37 D0 Q"),
    "two-wins": ("A", 0, "T0=37|55|28 D0 W10 W20"),
}
AFTER = {
    "first-turn-riichi": ("B", 0, "T0=28|1 R0 D0 r0 T1=0|90 D1=0|90|4 Q"),
    "first-turn-kan": ("A", 3, "T0=3|55 A0 X=19|126 T0=28|90 D0=28|90|84 W30"),
    "pon-first": ("B", 1, "T0=29|123 D0=123|29 P1 D1=40|72 T2=35|5 W22"),
    "plain": ("A", 2, "T0=37|19 D0=37|60|19 T1=28 D1=28|88 T2=41|66 G2 T3=5 Q"),
}


def flat(v):
    """any recorded value as nested lists"""
    if isinstance(v, np.ndarray):
        return [flat(x) for x in v.view(np.ndarray)] if v.ndim else [v.item()]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return [[str(k), flat(x)] for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))]
    if hasattr(v, "naki_code"):
        return ["meld", v.naki_code]
    if type(v).__module__.startswith("MahjongAI"):
        return [type(v).__name__, flat(vars(v))]
    return v


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return And([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    return a == b


def _pairs(tier):
    b, a = sorted(BEFORE), sorted(AFTER)
    if tier == "quick":
        return [(x, a[(i + j) % len(a)]) for i, x in enumerate(b) for j in (0, 2)] + [(x, a[i % len(a)]) for i, x in enumerate(QUICK) if x not in ("minkan", "ankan-twice")]
    return [(x, y) for x in b for y in a] + [(x, s) for i, s in enumerate(sorted(n for n in SCEN if n.startswith("n-"))) for x in (b[i % len(b)], b[(i + 4) % len(b)])]


@harness("C31", variants=_pairs, modules=MODS, covers=("first", "second"), validate=3, max_branches=400000,
         bounds=lambda tier: "%d pairs of scripted rounds of 2-12 events with symbolic tiles, calls, scores and counters: every way a round may end (draw, kan, robbed kan, riichi tile, running riichi, calls, new dora, double win) before rounds that start with a riichi, a kan, a pon or plain turns" % len(_pairs(tier)))
def rounds_apart(ctx, M, before, after):
    A = M("decision").AgariDecision
    told = []

    def rons(player, *a, **k):
        told.append(flat([player, a, k]))
        return [A(q, False) if q != player else None for q in range(4)]

    def tsumos(*a, **k):
        told.append(flat([a, k]))
        return [A(k["player"] if "player" in k else a[0], False)]

    def calls(*a, **k):
        told.append(flat([a, k]))
        return [[] for _ in range(4)]

    patch(ctx, M, evaluate_ron=rons, evaluate_tsumo=tsumos, decision_mask=calls)
    far_from_ready(ctx)
    plays = []
    for i, (deal, dealer, text) in enumerate((BEFORE.get(before) or SCEN[before], AFTER.get(after) or SCEN[after])):
        pl = Play(ctx, M, deal, dealer, scalars=bool(i), pre="ab"[i])
        pl.script(text, ALL)
        plays.append(pl)
    body = [pl.init + "".join(pl.events) for pl in plays]
    head = '<mjloggm ver="2.3"><SHUFFLE seed="x" ref=""/><GO type="%d" lobby="0"/><UN n0="a" n1="b" n2="c" n3="d"/><TAIKYOKU oya="0"/>' % GO_TYPE

    def run(text):
        del told[:]
        h, t = run_log(ctx, M, head + text + "</mjloggm>")
        return flat(h), flat(t), list(told)

    both, one, two = run(body[0] + body[1]), run(body[0]), run(body[1])
    ctx.check(len(both[0]) == len(both[1]) == 2, "two-rounds", len(both[0]))
    for label, i, alone, asked in (("first", 0, one, both[2][:len(one[2])]), ("second", 1, two, both[2][len(one[2]):])):
        ctx.cover(label)
        ctx.check(len(both[0][i]) == len(alone[0][0]), label + "-round-points", (len(both[0][i]), len(alone[0][0])))
        for n, (x, y) in enumerate(zip(both[0][i], alone[0][0])):
            ctx.check(same(x, y), label + "-round-changed", n)
        ctx.check(same(both[1][i], alone[1][0]), label + "-round-tokens")
        ctx.check(len(asked) == len(alone[2]), label + "-round-checks", (len(asked), len(alone[2])))
        for n, (x, y) in enumerate(zip(asked, alone[2])):
            ctx.check(same(x, y), label + "-round-check-told", n)


# ------------------------------------------------------------- C19 from the log
PREFIX = {
    "after-draw": ("A", 0, "T0=37|55 D0=37|55|52 T1=5|28"),
    "after-discard": ("A", 3, "T0=3 A0 X=19|90 T0=28 D0=28|52"),
    "after-riichi": ("A", 2, "T0=37 R0 D0=37|60|52 r0 T1=28 D1=28|88"),
    "after-pon": ("B", 1, "T0=29 G0 T1=123 D1=123|1 T2=35 D2=35|124"),
    "before-kakan": ("A", 1, "T0=19 D0=19 P3 D3=36 T0=37 G0 T1=5 G1 T2=42 G2 T3=107|71"),
}


@harness("C19", variants=lambda tier: [(NAMES[(i + j) % 4], p) for i, p in enumerate(PREFIX) for j in ((0, 2) if tier == "quick" else range(4))], modules=VIEW, torch=True, covers=("own", "discard", "response"), validate=2, max_branches=400000,
         bounds=lambda tier: "five scripted beginnings of a round of 3-11 events with symbolic tiles, each followed by every legal sequence of %d further events over a 26-tile pool" % (2 if tier == "quick" else 3))
def later_events(ctx, M, name, prefix):
    shim(ctx)
    A = M("decision").AgariDecision
    patch(ctx, M, evaluate_ron=lambda player, *a, **k: [A(q, False) if q != player else None for q in range(4)],
          evaluate_tsumo=lambda *a, **k: [A(k["player"] if "player" in k else a[0], False)])
    no_calls(ctx, M)
    far_from_ready(ctx)
    deal, dealer, text = PREFIX[prefix]
    pl = Play(ctx, M, deal, dealer, pool=sorted({16, 17, 18, 19, 52, 53, 54, 55, 88, 89, 90, 91, 0, 1, 2, 3, 108, 109, 110, 111, 116, 117, 118, 119, 135, 35}))
    pl.script(text, ALL)
    early, tokens = pl.run(events=pl.events + ['<RYUUKYOKU sc="250,0,250,0,250,0,250,0"/>'])
    pl.free(2 if ctx.tier == "quick" else 3, ALL)
    pl.RYU()
    late, more = pl.run()
    # the point still open when the beginning ends: how it is answered is known only later
    shut = samples(ctx, M, name, [[early[0][:-1]]], [tokens])
    first = samples(ctx, M, name, [early], [tokens])
    second = samples(ctx, M, name, [late], [more])
    for phase, what in ((DURING, "own"), (DISCARD, "discard"), (POST, "response")):
        n = len(shut[phase])
        ctx.cover(what, n > 0)
        ctx.check(len(second[phase]) >= n, "samples-lost", (what, n))
        for i, (x, y) in enumerate(zip(first[phase], second[phase])):
            for f in ("events", "x1", "x2", "x3", "mask", "player") + (("label",) if i < n else ()):
                ctx.check(same(flat(getattr(x, f)), flat(getattr(y, f))), "later-event-shows", (what, i, f))
