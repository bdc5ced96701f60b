"""C29: response samples are told from the responder's own viewpoint, from the log to
the tensors a model is given."""
import numpy as np

from engine.core import And, Or, Not, Implies, Iff, ite, is_sym
from engine.runner import harness
from .agents import NAMES, MODULES, arr, check_planes, grid, module, shim
from .mask import make_arr
from .play import Play, REDS, patch, far_from_ready, no_calls
from .rounds import ALL, SCEN, MODS, vec

VIEW = tuple(sorted(set(MODULES) | set(MODS)))
# (deal, dealer, script)
SHORT = {
    "first": ("A", 0, "T0=37|55 D0=37|55|52|53|54|0|84 T1=5 Q"),
    "riichi": ("A", 2, "T0=37 R0 D0=37|60|52 r0 T1=28 D1=28|88 Q"),
    "after-pon": ("B", 1, "T0=29 G0 T1=123 D1=123|1 T2=35 D2=35|124|88 C3 D3=8|60 Q"),
    "red-called": ("B", 2, "T0=0 G0 T1=28 D1=52|17 P2 D2=8|124 Q"),
    "after-kan": ("A", 3, "T0=3 A0 T0=28 X=19|90 D0=28|52 Q"),
    "robbed": ("A", 1, "T0=19 D0 P3 D3=36 T0=37 G0 T1=5 G1 T2=42 G2 T3=107|19|71 K3 T3=28 D3=28 Q"),
}
LONG = [n for n in SCEN if not n.startswith("wall-end")]


def _variants(tier):
    one = [(NAMES[i % len(NAMES)], s, w) for i, (s, w) in enumerate([(s, w) for s in SHORT for w in ("all", "some")])]
    more = [(NAMES[3], "first", "some"), (NAMES[3], "after-pon", "all"), (NAMES[1], "red-called", "all")]
    if tier == "quick":
        return one + more
    return [(n, s, w) for n in NAMES for s in SHORT for w in ("all", "some")] + [(NAMES[i % 4], s, "all") for i, s in enumerate(sorted(SCEN)) if s in LONG and s.startswith("n-")]


@harness("C29", variants=_variants, modules=VIEW, torch=True, covers=("discard", "robbing", "one-responder", "three-responders"), validate=2, max_branches=400000,
         bounds=lambda tier: "%d scripted rounds of 3-12 events with symbolic tiles and calls, every other player (or an arbitrary set of them) offered a response at each discard and added kan; log processing and sample building run together" % (len(SHORT) if tier == "quick" else len(SHORT) + 14))
def responders_view(ctx, M, name, sc, which):
    deal, dealer, text = SHORT.get(sc) or SCEN[sc]
    shim(ctx)
    A = M("decision").AgariDecision
    asked = []

    def rons(player, *a, **k):
        n = len(asked)
        who = [q != player if which == "all" else q != player and bool(ctx.bool("ask%d_%d" % (n, q))) if n < 2 else (q + n) % 3 == 0 and q != player for q in range(4)]
        asked.append(who)
        return [A(q, False) if who[q] else None for q in range(4)]

    patch(ctx, M, evaluate_ron=rons, evaluate_tsumo=lambda *a, **k: [])
    no_calls(ctx, M)
    far_from_ready(ctx)
    pl = Play(ctx, M, deal, dealer)
    pl.script(text, ALL)
    halfturns, tokens = pl.run()
    points = [p for p in pl.points if p.kind in ("post", "chankan")]
    ctx.check(len(asked) == len(points), "win-checks", (len(asked), len(points)))
    posts = [h for h in halfturns[0] if h.type_ == 2]
    ctx.check(len(posts) == len(points), "number-of-decision-points", (len(posts), len(points)))
    proc = module(M, name).TransformerTensorProcessor()
    got = proc.prepare_batches([halfturns], [tokens])[2]
    want = []
    T = M("turn")
    for h, p, who in zip(posts, points, asked):
        ctx.cover("discard" if p.kind == "post" else "robbing")
        ctx.cover("one-responder", sum(who) == 1)
        ctx.cover("three-responders", sum(who) == 3)
        for q in [(p.player + i) % 4 for i in (1, 2, 3)]:
            if who[q]:
                # whether the one-shot chance counts before the riichi is accepted is open
                alts = []
                for one in (0, 1) if getattr(p, "declared", False) else (p.snap.ippatsu[p.player],):
                    s = expected_state(ctx, M, pl, h, p, q)
                    s.ippatsu[p.player] = one
                    alts.append(T.PostTurn(p.player, s, [[[A(r, False)], [], []] if r == q else [[], [], []] for r in range(4)], h.encoding_idx))
                want.append((alts, p, q))
    n = sum(sum(w) for w in asked)
    x = [arr(t) for t in got[1]]
    ctx.check(all(t.shape[0] == n for t in x), "one-sample-per-responder", (n, [t.shape for t in x]))
    for i, (alts, p, q) in enumerate(want):
        refs = [[arr(t) for t in proc.prepare_batches([[[turn]]], [tokens])[2][1]] for turn in alts]
        e = alts[0].stateObj
        check_planes(ctx, name, x[0][i], *[[t[k] for k in range(37)] for t in (e.hand_tensor, e.remaining_tiles_pov)], [[e.sutehai_tensors[r, k] for k in range(37)] for r in range(4)], q)
        for part in range(3):
            for j in np.ndindex(*refs[0][part].shape[1:]):
                ctx.check(Or([x[part][(i,) + j] == r[part][(0,) + j] for r in refs]), "responders-view", (p.kind, p.player, q, part, j))


def expected_state(ctx, M, pl, h, p, q):
    """what q knows when responding at p"""
    r = p.snap
    v = r.views[q]
    sut = [[ite(Or([(t // 4 == k) if k < 34 else (t == REDS[k - 34]) for t in r.discards[s]]), 1, 0) for k in range(37)] for s in range(4)]
    return M("state").StateObject(
        remaining_turns=70 - r.draws,
        hand_tensor=make_arr(ctx, [r.hands[q].count(k) for k in range(37)]),
        remaining_tiles=make_arr(ctx, [(4 if k < 34 else 1) - r.gone.count(k) for k in range(37)]),
        remaining_tiles_pov=make_arr(ctx, [(4 if k < 34 else 1) - v.count(k) for k in range(37)]),
        sutehai_tensors=grid(ctx, sut),
        is_menzen=list(r.menzen),
        double_reaches=list(r.double),
        reaches=list(r.reach),
        ippatsu=list(r.ippatsu),
        melds=[[] for _ in range(4)],
        scores=list(r.scores),
        kyotaku=r.kyotaku,
        honba=r.honba,
        dora=list(r.indicators),
        parent_tensor=make_arr(ctx, [1 if s == pl.dealer else 0 for s in range(4)]),
        rounds_remaining=h.stateObj.rounds_remaining,
        parent_rounds_remaining=list(h.stateObj.parent_rounds_remaining),
        remaining_tsumo=70 - r.draws,
        player=q,
    )
