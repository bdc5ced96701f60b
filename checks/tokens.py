"""C05: event tokens."""
from engine.core import And, Or, Not, Implies, Iff, ite
from engine.runner import harness
from . import spec
from .spec import CHI, PON, KAKAN, MINKAN, ANKAN, TYPES

KINDS = ("discard", "reach", "dora") + TYPES


class Ev:
    def __init__(self, **f):
        self.__dict__.update(f)


def event(ctx, M, kind, pre=""):
    P = M("process_xml")
    if kind == "discard":
        who, tile, giri = ctx.int(pre + "who", 0, 3), ctx.int(pre + "tile", 0, 36), ctx.bool(pre + "tsumogiri")
        return Ev(kind=kind, token=P.discard2idx(who, tile, giri), who=who, tile=tile, giri=giri)
    if kind == "reach":
        who = ctx.int(pre + "who", 0, 3)
        return Ev(kind=kind, token=P.reach2idx(who), who=who)
    if kind == "dora":
        tile = ctx.int(pre + "tile", 0, 36)
        return Ev(kind=kind, token=P.new_dora2idx(tile), tile=tile)
    m = spec.arbitrary_meld(ctx, kind, pre + "m_")
    who = ctx.int(pre + "caller", 0, 3)
    n = M("draw").Naki(m.code)
    return Ev(kind=kind, token=P.naki2idx(who, n), who=who, meld=m, naki=n)


def same_event(a, b):
    if a.kind != b.kind:
        return False
    if a.kind == "discard":
        return And(a.who == b.who, a.tile == b.tile, Iff(a.giri, b.giri))
    if a.kind == "reach":
        return a.who == b.who
    if a.kind == "dora":
        return a.tile == b.tile
    return And(a.who == b.who, spec.same_action(a.meld, b.meld))


EMPTY, DISCARD, DURING, POST, NEW_DORA = range(5)


@harness("C05", variants=lambda tier: [(k,) for k in KINDS], modules=("process_xml", "draw"), bounds="every event of the kind (melds: every well-formed code)")
def token_fields(ctx, M, kind):
    e = event(ctx, M, kind)
    t = e.token
    ctx.observe("token", t)
    ctx.check(t != 0, "not-padding")
    ctx.check(And(t > 0, t < (1 << 17)), "range", t)
    phase, typ, who, tile, giri, act = (t >> 13), (t >> 10) & 7, (t >> 8) & 3, t & 0x7F, (t >> 7) & 1, t & 0xFF
    want_phase = {"discard": DISCARD, "reach": DURING, "dora": NEW_DORA, KAKAN: DURING, ANKAN: DURING, CHI: POST, PON: POST, MINKAN: POST}[kind]
    want_type = {"discard": 1, "reach": 3, "dora": 4}.get(kind, 2)
    ctx.check(phase == want_phase, "phase", t)
    ctx.check(typ == want_type, "event-type", (typ, want_type))
    if kind != "dora":
        ctx.check(who == e.who, "player", (who, e.who))
    if kind in ("discard", "dora"):
        ctx.check(tile == e.tile, "tile", (tile, e.tile))
    if kind == "discard":
        ctx.check(Iff(giri == 1, e.giri), "drawn-tile-flag")
    if kind in (KAKAN, ANKAN):
        ctx.check(act == e.naki.get_during_turn_filter_idx(), "slot", act)
    if kind in (CHI, PON, MINKAN):
        ctx.check(act == e.naki.get_post_turn_filter_idx(), "slot", act)


PAIRS = [(a, b) for i, a in enumerate(KINDS) for b in KINDS[: i + 1]]


@harness("C05", variants=lambda tier: PAIRS, modules=("process_xml", "draw"), bounds="every pair of events")
def token_unique(ctx, M, ka, kb):
    a, b = event(ctx, M, ka, "a_"), event(ctx, M, kb, "b_")
    ctx.check(Iff(a.token == b.token, same_event(a, b)), "equal-iff-same-event", (a.token, b.token))
