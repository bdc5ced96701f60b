"""Independent statement of the Tenhou meld format and of mahjong calls, used as
the oracle.  Works on concrete and on symbolic integers alike."""
from engine.core import And, Or, Not, Implies, Iff, ite, Sum

CHI, PON, KAKAN, MINKAN, ANKAN = "chi", "pon", "kakan", "minkan", "ankan"
TYPES = (CHI, PON, KAKAN, MINKAN, ANKAN)


class Meld:
    """A call, described by its fields: what the table sees."""

    def __init__(self, typ, code, **f):
        self.typ = typ
        self.code = code
        self.__dict__.update(f)


def arbitrary_meld(ctx, typ, pre="", kinds=None):
    """Every well-formed 16-bit Tenhou meld code of one type, by its fields.

    chi:    33 | called index, run | copies (2 bits per tile) | who=3
    pon:    kind*3+called index | copy not used | 0x8 | who
    kakan:  kind*3+called index of the pon | added copy | 0x10 | who
    kan:    called tile id (136) << 8 | who   (who=0: concealed)

    kinds: restrict to these tile kinds (chi: kinds of the lowest tile)
    """
    I = ctx.int
    if typ == CHI:
        if kinds is None:
            color = I(pre + "color", 0, 2)
            number = I(pre + "number", 0, 6)
        else:
            low = ctx.choice(pre + "low", kinds)
            color, number = low // 9, low % 9
        which = I(pre + "which", 0, 2)
        cp = [I(pre + "copy%d" % i, 0, 3) for i in range(3)]
        code = ((((color * 7 + number) * 3 + which) << 10) | (cp[0] << 3) | (cp[1] << 5) | (cp[2] << 7) | 0x4) | 3
        tiles = [(color * 9 + number + i) * 4 + cp[i] for i in range(3)]
        kinds = [color * 9 + number + i for i in range(3)]
        called = ite(which == 0, tiles[0], ite(which == 1, tiles[1], tiles[2]))
        hand = [ite(which == 0, tiles[1], tiles[0]), ite(which == 2, tiles[1], tiles[2])]
        red = [And(number + i == 4, cp[i] == 0) for i in range(3)]
        red_called = Or([And(which == i, red[i]) for i in range(3)])
        red_hand = And(Or(red), Not(red_called))
        return Meld(typ, code, color=color, number=number, which=which, tiles=tiles, kinds=kinds, hand=hand, called=called,
                    red=Or(red), red_called=red_called, red_hand=red_hand, who=3, kind=color * 9 + number)
    if typ in (PON, KAKAN):
        kind = I(pre + "kind", 0, 33) if kinds is None else ctx.choice(pre + "kind", kinds)
        which = I(pre + "which", 0, 2)
        cp = I(pre + "copy", 0, 3)
        who = I(pre + "who", 1, 3)
        base = (((kind * 3 + which) << 9) | (cp << 5)) | who
        five = is_five(kind)
        if typ == PON:
            code = base | 0x8
            # the three copies that are not cp, ascending
            c3 = [ite(cp == 0, 1, 0), ite(cp <= 1, 2, 1), ite(cp <= 2, 3, 2)]
            cc = ite(which == 0, c3[0], ite(which == 1, c3[1], c3[2]))
            hc = [ite(which == 0, c3[1], c3[0]), ite(which == 2, c3[1], c3[2])]
            red = And(five, cp != 0)
            red_called = And(five, cc == 0)
            return Meld(typ, code, kind=kind, which=which, tiles=[kind * 4 + c for c in c3], hand=[kind * 4 + c for c in hc],
                        called=kind * 4 + cc, red=red, red_called=red_called, red_hand=And(red, Not(red_called)), who=who)
        code = base | 0x10
        red_added = And(five, cp == 0)
        return Meld(typ, code, kind=kind, which=which, hand=[kind * 4 + cp], called=None, who=who,
                    red=five, red_added=red_added, red_hand=red_added, red_called=False)
    tile = I(pre + "tile", 0, 135) if kinds is None else ctx.choice(pre + "tile", [k * 4 + c for k in kinds for c in range(4)])
    kind = tile // 4
    cp = tile % 4
    five = is_five(kind)
    if typ == MINKAN:
        who = I(pre + "who", 1, 3)
        code = (tile << 8) | who
        c3 = [ite(cp == 0, 1, 0), ite(cp <= 1, 2, 1), ite(cp <= 2, 3, 2)]
        red_called = And(five, cp == 0)
        return Meld(typ, code, kind=kind, tile=tile, hand=[kind * 4 + c for c in c3], called=tile, who=who,
                    red=five, red_called=red_called, red_hand=And(five, Not(red_called)))
    code = tile << 8
    return Meld(typ, code, kind=kind, tile=tile, hand=[kind * 4 + c for c in range(4)], called=None, who=0, red=five, red_called=False, red_hand=five)


def is_five(kind):
    return Or(kind == 4, kind == 13, kind == 22)


def is_red(tile):
    return Or(tile == 16, tile == 52, tile == 88)


def same_action(a, b):
    """Same call, seen as an action of the caller on the tile just called:
    type, tiles' kinds, position of the called tile, red five laid from hand."""
    if a.typ != b.typ:
        return False
    if a.typ == CHI:
        return And(a.kind == b.kind, a.which == b.which, Iff(a.red_hand, b.red_hand))
    if a.typ == PON:
        return And(a.kind == b.kind, Iff(a.red_hand, b.red_hand))
    return a.kind == b.kind


def same_call(a, b):
    """Same call including whom it is from and where a red five comes from."""
    if a.typ != b.typ:
        return False
    if a.typ == CHI:
        return And(a.kind == b.kind, a.which == b.which, Iff(a.red, b.red))
    if a.typ == PON:
        return And(a.kind == b.kind, a.who == b.who, Iff(a.red, b.red), Iff(a.red_hand, b.red_hand))
    if a.typ == KAKAN:
        return And(a.kind == b.kind, Iff(a.red_added, b.red_added))
    if a.typ == MINKAN:
        return And(a.kind == b.kind, a.who == b.who, Iff(a.red_called, b.red_called))
    return a.kind == b.kind
