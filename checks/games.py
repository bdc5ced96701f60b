"""C08: what the game type and round number mean.  C28: splitting a log into rounds."""
import os
import tempfile
import xml.etree.ElementTree as ET

from engine.core import And, Or, Not, Implies, Iff, ite, Sum, is_sym, Base
from engine.runner import harness
from .play import Play, quiet, run_log, patch, far_from_ready, no_calls

GAME = ("gameinfo", "process_xml")


def bit(x, i):
    return (x >> i) & 1


# ------------------------------------------------------------------ C08: bits
@harness("C08", modules=("gameinfo",), bounds="every 16-bit game type word")
def type_bits(ctx, M):
    go = ctx.int("type", 0, 65535)
    g = M("gameinfo").GameInfo(go)
    for name, i in (("against_human", 0), ("no_red", 1), ("kansaki", 2), ("tonnan", 3), ("three_players", 4), ("fast", 6)):
        v = getattr(g, name)()
        ctx.check(v == bit(go, i), name, (v, i))
    ctx.check(g.n_rounds() == ite(bit(go, 3) == 1, 8, 4), "number-of-rounds")


@harness("C08", modules=("gameinfo",), bounds="every pair of 16-bit game type words")
def level_bits(ctx, M):
    a, b = ctx.int("a", 0, 65535), ctx.int("b", 0, 65535)
    G = M("gameinfo").GameInfo
    same = And(bit(a, 5) == bit(b, 5), bit(a, 7) == bit(b, 7))
    ctx.check(Iff(G(a).level() == G(b).level(), same), "table-level-is-its-two-bits")


def dealt_by(seat, r, n):
    """scheduled rounds from r on in which `seat` deals"""
    return Sum([ite(And(r <= k, k < n), 1, 0) for k in range(seat, 8, 4)])


@harness("C08", modules=("gameinfo",), bounds="every game type word and every scheduled round of the game")
def round_facts(ctx, M):
    go = ctx.int("type", 0, 65535)
    n = ite(bit(go, 3) == 1, 8, 4)
    r = ctx.int("round", 0, 7)
    ctx.assume(r < n)
    G = M("gameinfo")
    i = G.RoundInfo(G.GameInfo(go), r)
    ctx.check(i.remaining_rounds == n - r, "rounds-remaining")
    for p in range(4):
        ctx.check(i.parent_rounds_remaining[p] == dealt_by(p, r, n), "rounds-to-deal", (p, i.parent_rounds_remaining[p]))
    ctx.check(i.player_wind == r % 4, "dealer-seat")
    ctx.check(i.round_wind == r // 4, "prevailing-wind")


# ---------------------------------------------------- C08: acceptance, process
EVENTS = "T0=37 D0=44 T1=28 G1 Q"


def game(pl, go, events, head=""):
    return '<mjloggm ver="2.3"><SHUFFLE seed="x" ref=""/><GO type="%s" lobby="0"/><UN n0="a"/><TAIKYOKU oya="0"/>%s%s%s</mjloggm>' % (go, head, pl.init, "".join(events))


@harness("C08", modules=GAME, covers=("accepted", "rejected"), bounds="every 16-bit game type word, on a fixed round")
def accepted_games(ctx, M):
    quiet(ctx, M)
    go = ctx.int("type", 0, 65535)
    pl = Play(ctx, M, "A", 0)
    pl.script(EVENTS)
    good = And(bit(go, 0) == 1, bit(go, 1) == 0, bit(go, 2) == 0, bit(go, 4) == 0)
    try:
        h, _ = run_log(ctx, M, game(pl, go, pl.events))
    except M("process_xml").InvalidGameException:
        ctx.check(Not(good), "valid-game-rejected", go)
        ctx.cover("rejected")
        return
    ctx.check(good, "unsupported-game-accepted", go)
    ctx.check(len(h) == 1 and len(h[0]) == len(pl.points), "game-processed")
    ctx.cover("accepted")


@harness("C08", variants=lambda tier: [(k,) for k in range(6)], modules=GAME, covers=("disconnect",), bounds="a disconnect before, between or after the events of a round; every player; every accepted game type")
def disconnects(ctx, M, at):
    quiet(ctx, M)
    go = ctx.int("type", 0, 65535)
    ctx.assume(And(bit(go, 0) == 1, bit(go, 1) == 0, bit(go, 2) == 0, bit(go, 4) == 0))
    pl = Play(ctx, M, "A", 0)
    pl.script(EVENTS)
    who = ctx.int("who", 0, 3)
    ev = [pl.init] + pl.events
    assert at <= len(ev)
    ev.insert(at, '<BYE who="%s"/>' % who)
    text = '<mjloggm ver="2.3"><GO type="%s" lobby="0"/><TAIKYOKU oya="0"/>%s</mjloggm>' % (go, "".join(ev))
    try:
        run_log(ctx, M, text)
    except M("process_xml").InvalidGameException:
        ctx.cover("disconnect")
        ctx.check(True, "rejected")
        return
    ctx.check(False, "disconnect-accepted", at)


@harness("C08", variants=lambda tier: [(d, n) for d in range(4) for n in (4, 8)], modules=GAME, covers=("east", "south"),
         bounds="one fixed round per dealer seat, at every scheduled round of East-only and East-South games, every other game type bit symbolic; honba, sticks and points symbolic")
def recorded_round(ctx, M, dealer, n):
    winds = []
    patch(ctx, M, evaluate_ron=lambda *a, **k: winds.append(k) or [None] * 4, evaluate_tsumo=lambda *a, **k: winds.append(k) or [])
    no_calls(ctx, M)
    far_from_ready(ctx)
    extra = ctx.int("bits", 0, 255)
    go = ((extra >> 1) << 5) + (8 if n == 8 else 0) + 1
    pl = Play(ctx, M, "A", dealer, scalars=True)
    r = pl.round
    ctx.assume(r < n)
    pl.script(EVENTS.replace(" Q", " T2=41|66 G2 Q"))
    h, _ = run_log(ctx, M, game(pl, go, pl.events))
    ctx.check(len(h[0]) == len(pl.points), "decision-points")
    for x in h[0]:
        s = x.stateObj
        ctx.check(s.rounds_remaining == n - r, "rounds-remaining", s.rounds_remaining)
        for p in range(4):
            ctx.check(s.parent_rounds_remaining[p] == dealt_by(p, r, n), "rounds-to-deal", (p, s.parent_rounds_remaining[p]))
            ctx.check(s.parent_tensor[p] == (1 if p == dealer else 0), "dealer")
    ctx.check(len(winds) == 6, "win-checks", len(winds))
    for k in winds:
        if "player_wind" in k and "round_wind" in k:
            ctx.check(k["player_wind"] == dealer, "seat-wind-from-dealer")
            ctx.check(k["round_wind"] == r // 4, "prevailing-wind")
    ctx.cover("east", r < 4)
    ctx.cover("south", r >= 4)


# --------------------------------------------------------- C28: round grouping
class Tag(str):
    """An element name that is one of several, decided by the solver."""

    def __new__(cls, ctx, name, names):
        t = str.__new__(cls, "?" + name)
        t.ctx = ctx
        t.names = names
        t.code = ctx.int(name, 0, len(names) - 1)
        return t

    def isin(self, names):
        return Or([self.code == i for i, n in enumerate(self.names) if n in names])

    def plain(self):
        return self.names[self.ctx.concretize(self.code)]

    def __eq__(self, o):
        if isinstance(o, Tag):
            return True if self is o else self.plain() == o.plain()
        return self.isin((o,))

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(self.plain())

    def __str__(self):
        return self.plain()

    def __getitem__(self, i):
        return self.plain()[i]

    def __len__(self):
        return len(self.plain())

    def __contains__(self, x):
        return x in self.plain()

    def startswith(self, *a):
        return self.plain().startswith(*a)

    def endswith(self, *a):
        return self.plain().endswith(*a)

    def lower(self):
        return self.plain().lower()

    def upper(self):
        return self.plain().upper()

    def __deepcopy__(self, memo):
        return self


EVENT_TAGS = ("T7", "U135", "D12", "G0", "N", "REACH", "DORA", "AGARI", "RYUUKYOKU")
HEADER = ("SHUFFLE", "UN", "TAIKYOKU")


def tree(ctx, M, items, nested=None):
    """Call the real splitter on a document with these root children."""
    root = ET.Element("mjloggm", {"ver": "2.3"})
    for i, (tag, attr) in enumerate(items):
        parent = root[-1] if nested is not None and i == nested else root
        e = ET.SubElement(parent, "x", attr)
        e.tag = tag if is_conc(tag) else tag
    P = M("process_xml")
    if any(isinstance(t, Tag) for t, _ in items) and ctx.symbolic:
        fake = ET.ElementTree(root)
        for name, f in (("parse", lambda *a, **k: fake), ("fromstring", lambda *a, **k: root)):
            ctx.cleanups.append(lambda name=name, old=getattr(ET, name): setattr(ET, name, old))
            setattr(ET, name, f)
        fd, path = tempfile.mkstemp(suffix=".log")
        os.close(fd)
    else:
        for e in root.iter():
            e.tag = str(e.tag)
        fd, path = tempfile.mkstemp(suffix=".log")
        os.write(fd, ET.tostring(root, encoding="utf-8", xml_declaration=True))
        os.close(fd)
    try:
        return P._get_rounds(path)
    finally:
        os.unlink(path)


def is_conc(t):
    return not isinstance(t, Tag)


def key(e):
    return e["attr"]["k"]


def _split_variants(tier):
    n = 6 if tier == "quick" else 8
    few = [(n, None, 0)] + [(n - 1, k, k) for k in ((1, 2) if tier == "quick" else range(1, n - 1))]
    return few + [(3, None, None), (3, 1, None)] + ([] if tier == "quick" else [(6, None, None)])


@harness("C28", variants=_split_variants, modules=GAME, covers=("two-rounds", "three-rounds", "header-between-rounds", "disconnect", "empty", "header-between-events"),
         bounds=lambda tier: "documents of a game-type element and %d further elements, each symbolically a header, round start, disconnect or one of two event elements, or %d with one of nine event elements; also with one element nested in the one before" % ((6, 3) if tier == "quick" else (8, 6)),
         max_branches=4000)
def split_rounds(ctx, M, n, nested, turn):
    # a few event names per place, or all of them
    some = [EVENT_TAGS if turn is None else (EVENT_TAGS[(2 * i + 5 * turn) % 9], EVENT_TAGS[(2 * i + 5 * turn + 1) % 9]) for i in range(n)]
    tags = [Tag(ctx, "tag%d" % i, (HEADER[i % 3], "INIT", "BYE") + some[i]) for i in range(n)]
    head = [t.isin(HEADER) for t in tags]
    init = [t.isin(("INIT",)) for t in tags]
    bye = [t.isin(("BYE",)) for t in tags]
    # well formed: game events only after a round start
    for i in range(n):
        ctx.assume(Or([head[i], bye[i]] + init[: i + 1]))
    items = [("GO", {"type": "169", "k": "go"})] + [(t, {"k": str(i)}) for i, t in enumerate(tags)]
    try:
        info, rounds = tree(ctx, M, items, None if nested is None else nested + 1)
    except M("process_xml").InvalidGameException:
        ctx.check(Or(bye), "game-rejected")
        ctx.cover("disconnect")
        return
    ctx.check(Not(Or(bye)), "disconnect-accepted")
    ctx.check(info.go == 169, "game-type")
    # every element at most once, in document order, rounds never empty
    ctx.check(all(len(r) > 0 for r in rounds), "empty-round")
    order = [int(key(e)) if key(e) != "go" else -1 for r in rounds for e in r]
    ctx.check(order == sorted(set(order)) and -1 not in order, "document-order", order)
    place = {int(key(e)): (i, j) for i, r in enumerate(rounds) for j, e in enumerate(r)}
    ctx.check(len(rounds) == Sum([ite(x, 1, 0) for x in init]), "number-of-rounds", len(rounds))
    for i in range(n):
        ctx.check(Iff(Not(head[i]), i in place), "kept-exactly-the-events", i)
        if i in place:
            ctx.check(place[i][0] == Sum([ite(x, 1, 0) for x in init[: i + 1]]) - 1, "round-of-event", (i, place[i]))
            ctx.check(Iff(init[i], place[i][1] == 0), "round-starts-with-its-start", (i, place[i]))
            e = rounds[place[i][0]][place[i][1]]
            ctx.check(e["event"] == tags[i], "event-name", i)
    ctx.cover("two-rounds", len(rounds) == 2)
    ctx.cover("three-rounds", len(rounds) == 3)
    ctx.cover("empty", len(rounds) == 0)
    ctx.cover("header-between-rounds", Or([And(init[0], head[i], init[i + 1]) for i in range(1, n - 1)]) if n > 3 else False)
    ctx.cover("header-between-events", And(init[0], head[1], Not(head[2]), Not(init[2])))


@harness("C28", variants=lambda tier: [(k,) for k in range(3)], modules=GAME, covers=("none", "one", "several"), bounds="documents with up to four possible game-type elements, anywhere")
def one_game_type(ctx, M, at):
    names = ("GO", "UN", "SHUFFLE")
    tags = [Tag(ctx, "tag%d" % i, names) for i in range(3)]
    items = [(t, {"type": "169", "k": str(i)}) for i, t in enumerate(tags)]
    items.insert(at, ("INIT", {"k": "i"}))
    items.insert(at + 1, ("T12", {"k": "t"}))
    cnt = Sum([ite(t.isin(("GO",)), 1, 0) for t in tags])
    try:
        info, rounds = tree(ctx, M, items)
    except ValueError:
        ctx.check(cnt != 1, "game-rejected", cnt)
        ctx.cover("none", cnt == 0)
        ctx.cover("several", cnt > 1)
        return
    ctx.check(cnt == 1, "game-type-missing-or-repeated", cnt)
    ctx.check(len(rounds) == 1 and [key(e) for e in rounds[0]] == ["i", "t"], "events", None)
    ctx.cover("one")


@harness("C28", modules=GAME, bounds="every 16-bit game type word")
def game_type_value(ctx, M):
    go = ctx.int("type", 0, 65535)
    info, rounds = _rounds_of(ctx, M, '<mjloggm><GO type="%s" lobby="0"/><INIT k="0"/></mjloggm>' % go)
    ctx.check(info.go == go, "game-type", info.go)


def _rounds_of(ctx, M, text):
    fd, path = tempfile.mkstemp(suffix=".log")
    os.write(fd, text.encode())
    os.close(fd)
    try:
        return M("process_xml")._get_rounds(path)
    finally:
        os.unlink(path)
