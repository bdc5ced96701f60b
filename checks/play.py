"""A round of mahjong with symbolic content, told twice: as a Tenhou log for the
code under test and as an independent reference account of the table.

A harness calls T/D/N/REACH/DORA/... in a legal order (which kind of event comes
next is a concrete choice of the path); tiles, meld codes, scores and counters are
symbolic.  `run` hands the log to the real process() and returns what it recorded.
"""
import os
import re
import tempfile

import numpy as np

from engine.core import And, Or, Not, Implies, Iff, ite, Sum, values_of
from engine.core import Infeasible
from . import spec
from .spec import CHI, PON, KAKAN, MINKAN, ANKAN

GO_TYPE = 169  # four humans, red fives, two wind rounds
REDS = (16, 52, 88)


def deal_from(kinds_by_seat, avoid=()):
    """Lists of kinds ('5r' style: kind+0.5 means the red copy) -> physical tiles."""
    used = set(avoid)
    out = []
    for ks in kinds_by_seat:
        h = []
        for k in ks:
            if k != int(k):
                t = int(k) * 4
                assert t in REDS and t not in used
            else:
                k = int(k)
                cand = [k * 4 + c for c in range(4) if k * 4 + c not in used and k * 4 + c not in REDS]
                t = cand[0]
            used.add(t)
            h.append(t)
        assert len(h) == 13, len(h)
        out.append(h)
    return out


M, P, S, Z = 0, 9, 18, 27
# The deals are made so that every kind of call is one or two draws away.
DEALS = {
    # seat 0 holds a triplet with the red five of pin, seat 1 pairs and runs around
    # the fives, seat 2 three winds, seat 3 three of the man five (red included)
    "A": [
        [P + 4.5, P + 4, P + 4, M + 0, M + 0, M + 0, S + 3, S + 5, Z + 0, Z + 0, P + 2, P + 6, S + 8],
        [P + 3, P + 5, P + 6, S + 4.5, S + 4, S + 3, M + 1, M + 2, Z + 1, Z + 1, Z + 1, Z + 4, Z + 4],
        [Z + 0, Z + 2, Z + 2, Z + 2, S + 3, S + 5, S + 6, P + 2, P + 3, P + 7, M + 6, M + 6, M + 8],
        [M + 4.5, M + 4, M + 4, M + 3, M + 5, P + 6, P + 6, S + 8, S + 8, Z + 6, Z + 6, Z + 3, P + 0],
    ],
    # fives spread over seats, so that reds are called and reds are laid
    "B": [
        [M + 4.5, M + 3, M + 5, P + 4, S + 4, S + 4, Z + 5, Z + 5, Z + 3, Z + 3, M + 8, M + 8, P + 8],
        [M + 4, M + 4, P + 3, P + 5, P + 4.5, S + 2, S + 3, Z + 5, S + 0, S + 0, S + 0, M + 8, P + 1],
        [P + 4, P + 4, S + 4.5, S + 5, S + 6, M + 2, M + 3, Z + 3, Z + 4, Z + 4, Z + 4, Z + 6, P + 8],
        [S + 4, M + 4, M + 5, M + 6, P + 8, P + 7, Z + 5, Z + 0, Z + 0, Z + 0, Z + 1, S + 8, S + 8],
    ],
    # everybody one tile from a win: two-sided, seven pairs, thirteen orphans, two-sided
    "T": [
        [M + 0, M + 1, M + 2, M + 3, M + 4.5, M + 5, P + 6, P + 7, S + 8, S + 8, Z + 0, Z + 0, Z + 0],
        [P + 1, P + 1, P + 2, P + 2, P + 3, P + 3, S + 1, S + 1, S + 2, S + 2, Z + 4, Z + 4, P + 4],
        [M + 0, M + 8, P + 0, P + 8, S + 0, S + 8, Z + 0, Z + 1, Z + 2, Z + 3, Z + 4, Z + 5, Z + 6],
        [S + 4.5, S + 4, S + 4, M + 6, M + 6, M + 6, P + 5, P + 6, Z + 6, Z + 6, S + 6, S + 6, S + 6],
    ],
    # two players wait on the five of pin that a third one may add to a pon
    "U": [
        [P + 4.5, M + 0, M + 1, M + 2, M + 3, M + 4, M + 5, S + 0, S + 0, S + 0, Z + 1, Z + 1, Z + 1],
        [P + 2, P + 3, M + 6, M + 6, M + 6, S + 1, S + 2, S + 3, Z + 2, Z + 2, Z + 2, S + 7, S + 7],
        [P + 5, P + 6, M + 8, M + 8, M + 8, S + 4.5, S + 5, S + 6, Z + 3, Z + 3, Z + 3, Z + 4, Z + 4],
        [P + 4, P + 4, M + 7, M + 7, M + 7, S + 8, S + 8, Z + 5, Z + 5, Z + 5, Z + 6, Z + 6, P + 8],
    ],
}
# the same with the red one still to be drawn
DEALS["V"] = [[P + 4] + DEALS["U"][0][1:]] + DEALS["U"][1:]
INDICATOR = {"V": 9 * 4 + 2, "T": 7 * 4 + 3, "U": 9 * 4 + 2, "A": 33 * 4 + 1, "B": 7 * 4 + 2, "R": 52}


def num(ctx, x):
    return str(x)


class Snap:
    """What the table looks like to `player` at a decision point."""


class Point:
    def __init__(self, kind, player, pos, snap, **k):
        self.kind = kind  # during / discard / post / chankan
        self.player = player
        self.pos = pos
        self.snap = snap
        self.follow = None  # event that answered it
        self.__dict__.update(k)


class Play:
    def __init__(self, ctx, mods, deal="A", dealer=0, scalars=False, indicator=None, pool=None, pre=""):
        self.ctx = ctx
        self.pre = pre
        self.mods = mods
        self.dealer = dealer
        # "A;I=52|4;03=16|5": deal A, indicator and the tile at position 3 of the
        # dealer's hand one of these
        deal, *loose = deal.split(";")
        ind = INDICATOR[deal] if indicator is None else indicator
        hands = deal_from(DEALS[deal], avoid=(ind,))
        self.deal = [hands[(p - dealer) % 4] for p in range(4)]
        assert all(ind not in h for h in self.deal)
        free = {}
        for w in loose:
            where, _, vals = w.partition("=")
            free[where] = ctx.choice(pre + "dealt" + where, [int(v) for v in vals.split("|")])
            if where == "I":
                ind = free[where]
            else:
                self.deal[(int(where[0]) + dealer) % 4][int(where[1:])] = free[where]
        every = [ind] + sum(self.deal, [])
        for i, a in enumerate(every):
            for b in every[:i]:
                ctx.assume(a != b)
        self.pool = list(range(136) if pool is None else pool)
        self.entered = [list(h) for h in self.deal]  # tiles that entered the hand
        self.left = [[] for _ in range(4)]  # tiles that left it
        self.discards = [[] for _ in range(4)]
        self.laid = [[] for _ in range(4)]  # from hand, in calls
        self.melds = [[] for _ in range(4)]
        self.called_in = [[] for _ in range(4)]
        self.drawn = []
        self.indicators = [ind]
        self.reach = [0] * 4
        self.double = [0] * 4
        self.ippatsu = [0] * 4
        self.menzen = [1] * 4
        self.any_call = False
        self.n = 0
        self.events = []
        self.tokens = []
        self.points = []
        self.turn = dealer
        self.acquired = None
        self.last_discard = None
        self.declared = None  # player with riichi declared, not yet accepted
        self.rinshan = False
        self.pending = None  # points that the next event answers
        if scalars:
            self.scores = [ctx.int(pre + "ten%d" % p, 0, 2000) for p in range(4)]
            self.round = ctx.int(pre + "kyoku4", 0, 1) * 4 + dealer
            self.honba = ctx.int(pre + "honba", 0, 20)
            self.kyotaku = ctx.int(pre + "kyotaku", 0, 12)
        else:
            self.scores = [250, 250, 250, 250]
            self.round, self.honba, self.kyotaku = dealer, 0, 0
        self.init = (
            '<INIT seed="%s,%s,%s,1,2,%s" ten="%s" oya="%d" %s/>'
            % (
                num(ctx, self.round),
                num(ctx, self.honba),
                num(ctx, self.kyotaku),
                num(ctx, ind),
                ",".join(num(ctx, s) for s in self.scores),
                dealer,
                " ".join('hai%d="%s"' % (p, ",".join(num(ctx, t) for t in self.deal[p])) for p in range(4)),
            )
        )

    # ------------------------------------------------------------- helpers
    def name(self, s):
        self.n += 1
        return "%s%s%d" % (self.pre, s, self.n)

    def seen_ids(self):
        out = list(self.indicators)
        for h in self.entered:
            out += h
        return out

    def fresh_tile(self, what):
        """A tile of the pool that nobody has seen yet."""
        seen = self.seen_ids()
        known = {t for t in seen if isinstance(t, int)}
        t = self.ctx.choice(self.name(what), [v for v in self.pool if v not in known])
        self.ctx.assume(And([t != x for x in seen]))
        return t

    def holds(self, p, t):
        return And(Or([t == x for x in self.entered[p]]), And([t != x for x in self.left[p]]))

    def concealed(self, p):
        return Sub(self.entered[p], self.left[p])

    def snapshot(self, p):
        s = Snap()
        s.player = p
        s.hand = self.concealed(p)
        s.hands = [self.concealed(q) for q in range(4)]
        # everything this player can see
        vis = Sub(list(self.entered[p]), [])
        for q in range(4):
            if q != p:
                vis.add += self.laid[q] + self.discards[q]
        vis.add += self.indicators
        s.visible = vis
        s.views = []
        for me in range(4):
            u = Sub(self.entered[me], [])
            for q in range(4):
                if q != me:
                    u.add += self.laid[q] + self.discards[q]
            u.add += self.indicators
            s.views.append(u)
        g = Sub(list(self.indicators), [])
        for q in range(4):
            g.add += self.entered[q]
        s.gone = g
        s.discards = [list(d) for d in self.discards]
        s.menzen = list(self.menzen)
        s.reach = list(self.reach)
        s.double = list(self.double)
        s.ippatsu = list(self.ippatsu)
        s.melds = [list(m) for m in self.melds]
        s.scores = list(self.scores)
        s.kyotaku = self.kyotaku
        s.honba = self.honba
        s.indicators = list(self.indicators)
        s.draws = len(self.drawn)
        return s

    def point(self, kind, p, snap, **k):
        pt = Point(kind, p, len(self.tokens), snap, **k)
        self.points.append(pt)
        return pt

    def answered(self, what):
        if self.pending is not None:
            self.pending.follow = what
            self.pending = None

    # -------------------------------------------------------------- events
    def T(self, p, tile=None):
        t = self.fresh_tile("draw") if tile is None else tile
        self.events.append("<%s%s/>" % ("TUVW"[p], num(self.ctx, t)))
        self.answered(None)
        self.entered[p].append(t)
        self.drawn.append(t)
        self.acquired = t
        self.state = self.snapshot(p)
        self.first_turn = not self.any_call and len(self.drawn) <= 4
        self.pending = self.point("during", p, self.state, rinshan=self.rinshan, drawn=t, nth=len(self.drawn), uninterrupted=not self.any_call)
        self.rinshan = False
        self.turn = p
        return t

    def D(self, p, tile=None, tsumogiri=False):
        ctx = self.ctx
        if tile is None:
            if tsumogiri or self.reach[p]:
                tile = self.acquired
            else:
                tile = ctx.choice(self.name("discard"), self.may_hold(p))
                ctx.assume(self.holds(p, tile))
        self.events.append("<%s%s/>" % ("DEFG"[p], num(ctx, tile)))
        self.answered(None)
        self.point("discard", p, self.state, tile=tile)
        giri = False if self.acquired is None else tile == self.acquired
        self.tokens.append(("discard", p, tile, giri))
        self.left[p].append(tile)
        self.discards[p].append(tile)
        if self.reach[p]:
            self.ippatsu[p] = 0
        self.acquired = None
        self.last_discard = tile
        self.pending = self.point("post", p, self.snapshot(p), tile=tile, nth=len(self.drawn), uninterrupted=not self.any_call, declared=self.declared == p)
        self.turn = p
        return tile

    def REACH1(self, p):
        self.events.append('<REACH who="%d" step="1"/>' % p)
        self.pending.reach = True
        self.answered(("reach", p))
        self.declared = p

    def REACH2(self, p):
        self.events.append('<REACH who="%d" ten="250,250,250,250" step="2"/>' % p)
        self.reach[p] = 1
        self.ippatsu[p] = 1
        if not self.any_call and len(self.discards[p]) == 1:
            self.double[p] = 1
        self.scores[p] = self.scores[p] - 10
        self.kyotaku = self.kyotaku + 1
        self.tokens.append(("reach", p))
        self.declared = None

    def DORA(self, tile=None):
        t = self.fresh_tile("dora") if tile is None else tile
        self.events.append('<DORA hai="%s"/>' % num(self.ctx, t))
        self.indicators.append(t)
        self.tokens.append(("dora", t))
        return t

    def may_hold(self, p):
        """Every tile that p's concealed hand may contain (over-approximated)."""
        known = {t for t in self.left[p] if isinstance(t, int)}
        return set().union(*[values_of(t) for t in self.entered[p]]) - known

    def meld_kinds(self, p, typ):
        """Kinds for which p may be able to make such a call now (over-approximated)."""
        hold = self.may_hold(p)
        n = lambda k: sum(1 for c in range(4) if k * 4 + c in hold)
        if typ in (CHI, PON, MINKAN):
            out = {v // 4 for v in values_of(self.last_discard)}
            if typ == CHI:
                return [
                    k
                    for k in range(27)
                    if k % 9 < 7 and any(k + i in out and all(n(k + j) for j in range(3) if j != i) for i in range(3))
                ]
            return [k for k in out if n(k) >= (2 if typ == PON else 3)]
        if typ == KAKAN:
            ks = set().union(*[values_of(x.kind) for x in self.melds[p] if x.typ == PON])
            return [k for k in ks if n(k) >= 1]
        return [k for k in range(34) if n(k) == 4]

    def N(self, p, typ, meld=None):
        ctx = self.ctx
        d = self.turn
        if meld is None:
            kinds = self.meld_kinds(p, typ)
            if not kinds:
                raise Infeasible()
            m = spec.arbitrary_meld(ctx, typ, self.name(typ), kinds)
        else:
            m = meld
        if typ in (CHI, PON, MINKAN):
            ctx.assume(m.called == self.last_discard)
            ctx.assume(m.who == (d - p) % 4)
            if typ == CHI:
                assert (p - d) % 4 == 1
        if typ == KAKAN:
            pons = [x for x in self.melds[p] if x.typ == PON]
            assert len(pons) >= 1
            i = 0 if len(pons) == 1 else ctx.pick(self.name("which_pon"), range(len(pons)))
            pon = pons[i]
            for f in ("kind", "which", "who"):
                ctx.assume(getattr(m, f) == getattr(pon, f))
            ctx.assume(And([m.hand[0] != t for t in pon.tiles]))
            self.melds[p].remove(pon)
        for t in m.hand:
            ctx.assume(self.holds(p, t))
        if self.reach[p]:
            ctx.assume(m.kind == self.acquired // 4)
        self.events.append('<N who="%d" m="%s"/>' % (p, num(ctx, m.code)))
        self.answered(("call", p, m))
        self.tokens.append(("call", p, m))
        self.left[p] += m.hand
        self.laid[p] += m.hand
        self.melds[p].append(m)
        self.any_call = True
        self.ippatsu = [0] * 4
        if typ != ANKAN:
            self.menzen[p] = 0
        self.acquired = None
        self.state = self.snapshot(p)
        if typ == KAKAN:
            self.pending = self.point("chankan", p, self.state, tile=m.hand[0])
        self.rinshan = typ in (KAKAN, MINKAN, ANKAN)
        self.turn = p
        return m

    def AGARI(self, who, from_who):
        self.events.append('<AGARI who="%d" fromWho="%d" sc="250,0,250,0,250,0,250,0"/>' % (who, from_who))
        if self.pending is not None:
            self.pending.wins = getattr(self.pending, "wins", ()) + (who,)

    def RYU(self):
        self.events.append('<RYUUKYOKU sc="250,0,250,0,250,0,250,0"/>')
        self.answered(None)

    # -------------------------------------------------- free play (grammar)
    def options(self, allow):
        """Legal kinds of the next event, by the structure of the round."""
        ops = []
        if self.pending is None and self.acquired is None and not self.rinshan and self.events and self.events[-1].startswith("<N"):
            return [("D", self.turn)]  # after chi / pon
        if self.declared is not None and self.pending is None:
            return [("D", self.turn)]
        if self.acquired is not None:
            p = self.turn
            ops.append(("D", p))
            if "reach" in allow and self.menzen[p] and not self.reach[p]:
                ops.append(("REACH1", p))
            if "ankan" in allow:
                ops.append(("N", p, ANKAN))
            if "kakan" in allow and any(x.typ == PON for x in self.melds[p]):
                ops.append(("N", p, KAKAN))
            return ops
        if self.rinshan:
            return [("T", self.turn)] + ([("DORA",)] if "dora" in allow and not self.events[-1].startswith("<DORA") else [])
        if self.pending is not None and self.pending.kind == "post":
            d = self.turn
            if self.declared is not None:
                return [("REACH2", d)]
            ops.append(("T", (d + 1) % 4))
            for q in range(4):
                if q == d or self.reach[q]:
                    continue
                if CHI in allow and (q - d) % 4 == 1:
                    ops.append(("N", q, CHI))
                if PON in allow:
                    ops.append(("N", q, PON))
                if MINKAN in allow:
                    ops.append(("N", q, MINKAN))
            return ops
        return [("T", self.dealer)]

    def do(self, op):
        getattr(self, op[0])(*op[1:])

    def free(self, n, allow):
        """n more events, every legal sequence of kinds within `allow`."""
        for _ in range(n):
            ops = self.options(allow)
            op = ops[0] if len(ops) == 1 else self.ctx.pick(self.name("event"), ops)
            self.do(op)

    LETTER = {"C": CHI, "P": PON, "K": KAKAN, "M": MINKAN, "A": ANKAN}

    def script(self, text, allow=()):
        """Events by letters; seats count from the dealer.
        T0 draw  D0 discard  G0 discard of the drawn tile  R0/r0 riichi declared /
        accepted  E5 five turns with the drawn tile discarded (tiles not named in
        the script)  C P K M A calls  X new indicator  W10 win of 1 from 0  ?n free
        =id fixes the tile; =id|id|.. restricts it"""
        ctx = self.ctx
        named = {int(v) for v in re.findall(r"\d+", " ".join(re.findall(r"=(\S+)", text)))}
        for w in text.split():
            if w[0] == "E":
                for _ in range(int(w[1:])):
                    q = self.dealer if not self.drawn else (self.turn + 1) % 4
                    seen = {t for t in self.seen_ids() if isinstance(t, int)}
                    self.T(q, next(t for t in range(135, -1, -1) if t not in seen and t not in named))
                    self.D(q, tsumogiri=True)
                continue
            w, _, fixed = w.partition("=")
            tile = None
            if fixed:
                vals = [int(v) for v in fixed.split("|")]
                tile = vals[0] if len(vals) == 1 else ctx.choice(self.name("tile"), vals)
            c = w[0]
            if c == "?":
                self.free(int(w[1:]), allow)
                continue
            if c == "X":
                if len(w) == 1:
                    self.DORA(self.new(tile))
                continue
            if c == "Q":
                self.RYU()
                continue
            p = (int(w[1]) + self.dealer) % 4
            if c == "T":
                self.T(p, self.new(tile))
            elif c == "D":
                if tile is not None:
                    ctx.assume(self.holds(p, tile))
                self.D(p, tile)
            elif c == "G":
                self.D(p, tsumogiri=True)
            elif c == "R":
                self.REACH1(p)
            elif c == "r":
                self.REACH2(p)
            elif c == "W":
                self.AGARI(p, (int(w[2]) + self.dealer) % 4)
            else:
                self.N(p, self.LETTER[c])

    def new(self, t):
        """t, known to be unseen; None stays None"""
        if t is None:
            return None
        self.ctx.assume(And([t != x for x in self.seen_ids()]))
        return t

    # ------------------------------------------------------------ execution
    def xml(self, events=None, more=""):
        return (
            '<mjloggm ver="2.3"><SHUFFLE seed="x" ref=""/><GO type="%d" lobby="0"/>'
            '<UN n0="a" n1="b" n2="c" n3="d"/><TAIKYOKU oya="0"/>%s%s%s</mjloggm>'
        ) % (GO_TYPE, self.init, "".join(self.events if events is None else events), more)

    @staticmethod
    def other_round():
        """A second, concrete round with a riichi and calls."""
        b = deal_from(DEALS["B"], avoid=(INDICATOR["B"],))
        return (
            '<INIT seed="1,0,0,1,2,%d" ten="250,250,250,250" oya="1" %s/>' % (INDICATOR["B"], " ".join('hai%d="%s"' % (p, ",".join(map(str, b[p]))) for p in range(4)))
            + '<U0/><REACH who="1" step="1"/><E0/><REACH who="1" ten="250,240,250,250" step="2"/><V1/><F1/><DORA hai="2"/><W4/><G4/>'
            + '<RYUUKYOKU sc="250,0,250,0,250,0,250,0"/>'
        )

    def run(self, events=None, more=""):
        return run_log(self.ctx, self.mods, self.xml(events, more))


def run_log(ctx, mods, text):
    fd, path = tempfile.mkstemp(suffix=".log")
    os.close(fd)
    with open(path, "w", encoding="utf-8") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>' + text)
    try:
        return mods("process_xml").process(path)
    finally:
        os.unlink(path)


class Sub:
    """A multiset of physical tiles given as added and removed lists."""

    def __init__(self, add, rem):
        self.add = list(add)
        self.rem = list(rem)

    def kinds(self, what):
        c = getattr(self, "_" + what, None)
        ts = getattr(self, what)
        if c is None or len(c) != len(ts):
            c = [t // 4 for t in ts]
            setattr(self, "_" + what, c)
        return c

    def count(self, k):
        """0..33 kinds, 34..36 the red fives"""
        if k < 34:
            return _cnt(self.kinds("add"), lambda t: t == k) - _cnt(self.kinds("rem"), lambda t: t == k)
        else:
            f = lambda t: t == REDS[k - 34]
        return _cnt(self.add, f) - _cnt(self.rem, f)


def _cnt(ts, f):
    c, r = 0, 0
    for t in ts:
        v = f(t)
        if isinstance(v, bool):
            c += int(v)
        else:
            r = r + ite(v, 1, 0)
    return r + c


# --------------------------------------------------------------------- stubs
def patch(ctx, mods, **names):
    """Replace functions in every module of the package that holds them."""
    for name, f in names.items():
        for m in mods._mods.values():
            if name in m.__dict__:
                ctx.cleanups.append(lambda m=m, name=name, old=m.__dict__[name]: m.__dict__.__setitem__(name, old))
                m.__dict__[name] = f


def patch_shanten(ctx, f):
    from mahjong.shanten import Shanten

    old = Shanten.__dict__["calculate_shanten"]
    ctx.cleanups.append(lambda: setattr(Shanten, "calculate_shanten", old))
    Shanten.calculate_shanten = staticmethod(f)


def no_wins(ctx, mods):
    patch(ctx, mods, evaluate_ron=lambda *a, **k: [None] * 4, evaluate_tsumo=lambda *a, **k: [])


def no_calls(ctx, mods):
    patch(ctx, mods, decision_mask=lambda *a, **k: [[] for _ in range(4)])


def far_from_ready(ctx):
    patch_shanten(ctx, lambda tiles, *a, **k: 3)


def quiet(ctx, mods):
    no_wins(ctx, mods)
    no_calls(ctx, mods)
    far_from_ready(ctx)
