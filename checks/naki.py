"""C01-C04: the call (meld) codec."""
from engine.core import And, Or, Not, Implies, Iff, ite
from engine.runner import harness
from . import spec
from .spec import CHI, PON, KAKAN, MINKAN, ANKAN, TYPES

TYPE_VARIANTS = lambda tier: [(t,) for t in TYPES]
ALL16 = "every well-formed 16-bit Tenhou meld code of the type (all field values)"


def truthy(v):
    return v if isinstance(v, bool) else v != 0


def type_flags(n):
    return {
        CHI: truthy(n.is_chi()),
        PON: truthy(n.is_pon()),
        KAKAN: truthy(n.is_kakan()),
        MINKAN: truthy(n.is_minkan()),
        ANKAN: truthy(n.is_ankan()),
    }


def check_decode(ctx, n, m, tag=""):
    fl = type_flags(n)
    for t, v in fl.items():
        ctx.check(Iff(v, t == m.typ), tag + "type-" + t)
    ctx.check(n.from_who() == m.who, tag + "from-who")
    exposed, acquired = n.get_exposed()
    ctx.observe("exposed", exposed)
    ctx.observe("acquired", acquired)
    ctx.check(len(exposed) == len(m.hand), tag + "exposed-count", len(exposed))
    for t in m.hand:
        ctx.check(Or([e == t for e in exposed]), tag + "exposed-tiles", (exposed, m.hand))
    if m.called is None:
        ctx.check(acquired is None, tag + "acquired-none")
    else:
        ctx.check(acquired is not None, tag + "acquired-missing")
        if acquired is not None:
            ctx.check(acquired == m.called, tag + "acquired", (acquired, m.called))


@harness("C01", variants=TYPE_VARIANTS, modules=("draw",), bounds=ALL16)
def decode(ctx, M, typ):
    m = spec.arbitrary_meld(ctx, typ)
    n = M("draw").Naki(m.code)
    check_decode(ctx, n, m)
    pat = {CHI: n.pattern_chi, PON: n.pattern_pon, KAKAN: n.pattern_kakan, MINKAN: n.pattern_minkan, ANKAN: n.pattern_ankan}[typ]()
    ctx.check(And(pat[0] * 9 + pat[1] == m.kind, pat[1] >= 0, pat[1] < (7 if typ == CHI else 9)), "kind")
    if typ in (CHI, PON):
        ctx.check(Iff(truthy(pat[3]), m.red), "has-red")


@harness("C01", modules=("draw",), bounds="all 65536 16-bit words")
def decode_any_word(ctx, M):
    """On any 16-bit word the five call types are mutually exclusive, except for the
    words no Tenhou log contains (pon and added-kan marker both set)."""
    code = ctx.int("code", 0, 0xFFFF)
    n = M("draw").Naki(code, clean=False)
    fl = list(type_flags(n).values())
    bad = And((code & 0x4) == 0, (code & 0x18) == 0x18)
    for i in range(5):
        for j in range(i):
            ctx.check(Implies(Not(bad), Not(And(fl[i], fl[j]))), "exclusive")
    nuki = And((code & 0x1C) == 0, (code & 0x20) != 0)
    ctx.check(Implies(Not(nuki), Or(fl)), "some-type")


# ---------------------------------------------------------------- constructors
def construct(ctx, M, typ, pre=""):
    """An arbitrary legal call through its constructor -> (Naki, expected Meld)."""
    N = M("draw").Naki
    I, B = ctx.int, ctx.bool
    if typ == CHI:
        color, number, which = I(pre + "color", 0, 2), I(pre + "number", 0, 6), I(pre + "which", 0, 2)
        red = B(pre + "red")
        ctx.assume(Implies(red, And(number >= 2, number <= 4)))
        n = N.from_chi_info(color, number, which, red)
        red_called = And(red, number + which == 4)
        return n, spec.Meld(typ, None, kind=color * 9 + number, which=which, red=red, red_called=red_called, red_hand=And(red, Not(red_called)), who=3)
    kind = I(pre + "kind", 0, 33)
    five = spec.is_five(kind)
    if typ == PON:
        red_hand, red_called = B(pre + "red_hand"), B(pre + "red_called")
        ctx.assume(Not(And(red_hand, red_called)))
        ctx.assume(Implies(Or(red_hand, red_called), five))
        who = I(pre + "who", 1, 3)
        n = N.from_pon_info(kind, ite(red_hand, 1, 0), Or(red_hand, red_called), who)
        return n, spec.Meld(typ, None, kind=kind, red=Or(red_hand, red_called), red_called=red_called, red_hand=red_hand, who=who)
    if typ == KAKAN:
        in_pon = B(pre + "red_in_pon")
        ctx.assume(Implies(in_pon, five))
        n = N.from_kakan_info(kind, ite(in_pon, 1, 0))
        return n, spec.Meld(typ, None, kind=kind, red=five, red_added=And(five, Not(in_pon)), red_hand=And(five, Not(in_pon)), red_called=False, who=0)
    if typ == MINKAN:
        red_called = B(pre + "red_called")
        ctx.assume(Implies(red_called, five))
        who = I(pre + "who", 1, 3)
        n = N.from_minkan_info(kind, who, ite(red_called, 0, 1))
        return n, spec.Meld(typ, None, kind=kind, red=five, red_called=red_called, red_hand=And(five, Not(red_called)), who=who)
    n = N.from_ankan_info(kind)
    return n, spec.Meld(typ, None, kind=kind, red=five, red_called=False, red_hand=five, who=0)


def check_semantics(ctx, n, m, tag):
    """n, decoded, is the call m (kinds, reds, caller's and discarder's tiles)."""
    for t, v in type_flags(n).items():
        ctx.check(Iff(v, t == m.typ), tag + "type-" + t)
    if m.typ != KAKAN:
        ctx.check(n.from_who() == m.who, tag + "from-who")
    exposed, acquired = n.get_exposed()
    ctx.check(len(exposed) == {CHI: 2, PON: 2, KAKAN: 1, MINKAN: 3, ANKAN: 4}[m.typ], tag + "count")
    reds = [spec.is_red(e) for e in exposed]
    ctx.check(Iff(Or(reds), m.red_hand), tag + "red-from-hand", exposed)
    for i in range(len(exposed)):
        for j in range(i):
            ctx.check(exposed[i] != exposed[j], tag + "distinct-tiles")
    if m.typ in (KAKAN, ANKAN):
        ctx.check(acquired is None, tag + "acquired-none")
    else:
        ctx.check(Iff(spec.is_red(acquired), m.red_called), tag + "red-called", acquired)
        ctx.check(And([e != acquired for e in exposed]), tag + "distinct-called")
    if m.typ == CHI:
        ctx.check(acquired // 4 == m.kind + m.which, tag + "called-kind")
        for i in range(3):
            ctx.check(Or(m.which == i, Or([e // 4 == m.kind + i for e in exposed])), tag + "run")
    else:
        ctx.check(And([e // 4 == m.kind for e in exposed]), tag + "kinds")
        if acquired is not None:
            ctx.check(acquired // 4 == m.kind, tag + "called-kind")


@harness("C02", variants=TYPE_VARIANTS, modules=("draw",), bounds="every legal combination of kind/run, called position, red placement and discarder")
def construct_roundtrip(ctx, M, typ):
    n, m = construct(ctx, M, typ)
    ctx.observe("code", n.naki_code)
    ctx.check(And(n.naki_code >= 0, n.naki_code <= 0xFFFF), "16-bit")
    check_semantics(ctx, n, m, "")
    # and through the wire format
    n2 = M("draw").Naki(n.naki_code)
    check_semantics(ctx, n2, m, "reparsed-")
    ctx.check(n2.convenient_naki_code == n.convenient_naki_code, "reparsed-code")


# ---------------------------------------------------------------- canonical form
def canonical_of(M, m):
    N = M("draw").Naki
    if m.typ == CHI:
        return N.from_chi_info(m.color, m.number, m.which, m.red)
    if m.typ == PON:
        return N.from_pon_info(m.kind, ite(m.red_hand, 1, 0), m.red, m.who)
    if m.typ == KAKAN:
        return N.from_kakan_info(m.kind, ite(And(m.red, Not(m.red_added)), 1, 0))
    if m.typ == MINKAN:
        return N.from_minkan_info(m.kind, m.who, ite(m.red_called, 0, 1))
    return N.from_ankan_info(m.kind)


@harness("C03", variants=TYPE_VARIANTS, modules=("draw",), bounds=ALL16)
def canonical(ctx, M, typ):
    """The canonical code of a logged meld is the constructor's code for that call."""
    m = spec.arbitrary_meld(ctx, typ)
    n = M("draw").Naki(m.code)
    want = canonical_of(M, m)
    ctx.observe("canonical", n.convenient_naki_code)
    ctx.check(n.convenient_naki_code == want.convenient_naki_code, "equals-constructed", (n.convenient_naki_code, want.convenient_naki_code))
    ctx.check(n.naki_code == m.code, "raw-code-kept")
    again = M("draw").Naki(n.convenient_naki_code)
    ctx.check(again.convenient_naki_code == n.convenient_naki_code, "idempotent")
    check_semantics(ctx, again, m, "canonical-")


@harness("C03", variants=TYPE_VARIANTS, modules=("draw",), bounds="every pair of well-formed codes of one type")
def canonical_pair(ctx, M, typ):
    """Two logged melds share a canonical code exactly when they are the same call."""
    a = spec.arbitrary_meld(ctx, typ, "a_")
    b = spec.arbitrary_meld(ctx, typ, "b_")
    N = M("draw").Naki
    na, nb = N(a.code), N(b.code)
    ctx.check(Iff(na.convenient_naki_code == nb.convenient_naki_code, spec.same_call(a, b)), "iff-same-call",
              (na.convenient_naki_code, nb.convenient_naki_code))


PAIRS = [(a, b) for i, a in enumerate(TYPES) for b in TYPES[: i]]


@harness("C03", variants=lambda tier: PAIRS, modules=("draw",), bounds="every pair of well-formed codes of two different types")
def canonical_types_apart(ctx, M, ta, tb):
    a = spec.arbitrary_meld(ctx, ta, "a_")
    b = spec.arbitrary_meld(ctx, tb, "b_")
    N = M("draw").Naki
    ctx.check(N(a.code).convenient_naki_code != N(b.code).convenient_naki_code, "types-apart")


# ---------------------------------------------------------------- action slots
def slot(n, typ):
    return n.get_during_turn_filter_idx() if typ in (KAKAN, ANKAN) else n.get_post_turn_filter_idx()


@harness("C04", variants=TYPE_VARIANTS, modules=("draw",), bounds=ALL16)
def slot_range(ctx, M, typ):
    m = spec.arbitrary_meld(ctx, typ)
    n = M("draw").Naki(m.code)
    s = slot(n, typ)
    ctx.observe("slot", s)
    if typ in (KAKAN, ANKAN):
        ctx.check(And(s >= 3, s <= 70), "range", s)  # 0 pass, 1 tsumo, 2 riichi
    else:
        ctx.check(And(s >= 2, s <= 153), "range", s)  # 0 pass, 1 ron
    # the slot of the raw code and of its canonical code agree
    s2 = slot(M("draw").Naki(n.convenient_naki_code, clean=False), typ)
    ctx.check(s == s2, "canonical-same-slot", (s, s2))
    # no slot of the other kind of turn
    try:
        (n.get_post_turn_filter_idx if typ in (KAKAN, ANKAN) else n.get_during_turn_filter_idx)()
        ctx.check(False, "wrong-turn-slot")
    except Exception:
        pass


SLOT_PAIRS = [(CHI, CHI), (PON, PON), (MINKAN, MINKAN), (CHI, PON), (CHI, MINKAN), (PON, MINKAN), (KAKAN, KAKAN), (ANKAN, ANKAN), (ANKAN, KAKAN)]


@harness("C04", variants=lambda tier: SLOT_PAIRS, modules=("draw",), bounds="every pair of well-formed codes answering the same kind of turn")
def slot_injective(ctx, M, ta, tb):
    """Two calls share a slot exactly when they are the same action."""
    a = spec.arbitrary_meld(ctx, ta, "a_")
    b = spec.arbitrary_meld(ctx, tb, "b_")
    N = M("draw").Naki
    sa, sb = slot(N(a.code), ta), slot(N(b.code), tb)
    ctx.check(Iff(sa == sb, spec.same_action(a, b)), "iff-same-action", (sa, sb))


@harness("C04", variants=TYPE_VARIANTS, modules=("draw",), bounds="every legal constructed call")
def slot_constructed(ctx, M, typ):
    """An offered call and the logged call of the same action share the slot."""
    n, m = construct(ctx, M, typ, "c_")
    log = spec.arbitrary_meld(ctx, typ, "l_")
    ctx.assume(spec.same_action(m, log))
    s, t = slot(n, typ), slot(M("draw").Naki(log.code), typ)
    ctx.check(s == t, "offer-and-log-agree", (s, t))
