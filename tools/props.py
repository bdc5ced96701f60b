NOTES = (
    "One engine (engine/): the real functions of /repo run in CPython on z3-backed proxy values; every feasible path "
    "within the stated bounds is executed and every assertion on it discharged by z3; see DESIGN.md."
)
COMMON = " Trusts z3, CPython and the engine's numpy/torch stand-ins; every path is cross-validated against the unpatched code with the path's model."

PROPS = [
    dict(
        id="C01",
        title="Tenhou meld codes decode to the call they describe",
        statement="Every well-formed Tenhou meld code is recognised as exactly one call type (chi, pon, added kan, open kan, concealed kan) and decodes to exactly the physical tiles the format assigns to it: the tiles the caller lays from the own hand, the tile taken from the discarder (if any), the relative seat it came from and whether a red five is involved. No code of one type is ever read as another.",
        over=["inputs"],
        forall="all well-formed 16-bit meld codes of the five types (and type exclusivity over all 65536 words)",
        why="The tests decode a dozen hand-picked codes; the field boundaries, called positions and copy numbers interact and only matter for particular combinations.",
        files=["MahjongAI/draw.py"],
        mech=[("type predicates and pattern decoders", "Naki.is_*/pattern_*/get_exposed in MahjongAI/draw.py")],
        note="Holds for every well-formed code (complete finite domain, symbolic fields)." + COMMON,
    ),
    dict(
        id="C02",
        title="A call built from its parameters decodes to that same call",
        statement="For every legal call, the meld code built from its parameters fits the wire format and, decoded directly or after being re-read from the number, is that call: same type, tile kinds, called tile, discarder seat, and red five placement (in hand, called, in the earlier pon, or absent).",
        over=["inputs"],
        forall="all legal parameter combinations of the five constructors",
        why="Tests compare a few constructed numbers with literals; red placements and called positions are not covered jointly.",
        files=["MahjongAI/draw.py"],
        mech=[("constructors", "Naki.from_chi_info/from_pon_info/from_kakan_info/from_minkan_info/from_ankan_info")],
        note="Complete finite domain of legal parameters, symbolic." + COMMON,
    ),
    dict(
        id="C03",
        title="The canonical meld code identifies a call and nothing else",
        statement="Two meld codes have equal canonical codes exactly when they are the same call: same type, same tile kinds, same called position, same discarder (pon and open kan) and same red five placement, irrespective of which physical copies were used. The canonical code of a logged meld equals the code the program builds itself for that call, and taking the canonical code twice changes nothing.",
        over=["inputs"],
        forall="all well-formed meld codes, and all pairs of them",
        why="The tests fix single codes; equality over all pairs of codes is a two-variable claim over 2^32 pairs.",
        files=["MahjongAI/draw.py", "MahjongAI/process_xml.py"],
        mech=[("canonicalisation", "Naki._clean* and convenient_naki_code"), ("use", "process(): matching logged melds to offered decisions")],
        note="Complete finite domain including all pairs." + COMMON,
    ),
    dict(
        id="C04",
        title="Every call has its own action slot, inside the model's output range",
        statement="Every call is mapped to an action slot: concealed and added kans to own-turn slots 3..70 (after pass, tsumo, riichi) and chi, pon and open kan to response slots 2..153 (after pass, ron). Two calls answering the same kind of turn share a slot exactly when they are the same action (type, tile kinds, position of the called tile in a run, red five laid from hand or not), whichever physical copies or seat; an offered call and the logged code of it share the slot.",
        over=["inputs"],
        forall="all well-formed meld codes and all pairs of them, and all constructible calls",
        why="A collision between two slots needs two specific calls; the tests look up none or one.",
        files=["MahjongAI/draw.py"],
        mech=[("slot tables", "Naki.get_during_turn_filter_idx/get_post_turn_filter_idx")],
        note="Complete finite domain including all pairs; open kans are identified by kind only (as their slots are)." + COMMON,
    ),
    dict(
        id="C05",
        title="Event tokens are unambiguous",
        statement="Every public event (discard with tile, player and drawn-tile flag; call with caller and action; riichi with player; new dora indicator with tile) is encoded as one token that is never the padding token, lies inside the models' token range, and is shared by two events only if they are the same event. The fields the models unpack from a token (event phase, event type, player, drawn-tile flag, tile or action slot) are those of the event.",
        over=["inputs"],
        forall="all events of the four kinds and all pairs of events",
        why="Ambiguity is a statement over pairs of events; existing tests only construct melds.",
        files=["MahjongAI/process_xml.py", "MahjongAI/draw.py"],
        mech=[("token packers", "discard2idx, naki2idx, reach2idx, new_dora2idx in MahjongAI/process_xml.py")],
        note="Complete finite domain of events and pairs of events, symbolic." + COMMON,
    ),
    dict(
        id="C06",
        title="Responses offered to a discard are exactly the legal calls",
        statement="For every discard and every combination of hands, each other player is offered exactly the legal chi (next player only), pon and open kan calls on that tile, one per distinct action including the choices with and without a red five, each naming the right player, discarder and tiles; the discarder is offered nothing, nothing is marked executed, and the hands are left unmodified.",
        over=["inputs"],
        forall="all discards (37 tile kinds incl. red) and all hands consistent with four copies of each tile",
        why="Depends on joint counts of up to five tile kinds and the red flag in three hands; no test covers it.",
        files=["MahjongAI/decision.py", "MahjongAI/draw.py"],
        mech=[("call options", "decision_mask and its per-rank helpers")],
        note="All four hands symbolic (37 counts each), every discard; kinds that cannot form a call with the discard are held to 0..1 copies." + COMMON,
    ),
    dict(
        id="C07",
        title="A logged call is offered beforehand and marked as the one executed",
        statement="Whenever a log contains a call, the decision point just before it offers that call to the caller, exactly that offer becomes marked as executed and no other offer of any player is; decision points not followed by a call keep all call offers unexecuted. The same holds for riichi declarations and for wins. No call is offered to a player in riichi or on the last discard.",
        over=["histories"],
        forall="all histories of draws, discards, calls and riichi within the stated bound on events",
        why="The tests never run a log through the pipeline; the match depends on canonical codes and hands together.",
        files=["MahjongAI/process_xml.py", "MahjongAI/decision.py", "MahjongAI/draw.py"],
        mech=[("execution marking", "process(): N and REACH events")],
        note="Rounds played from fixed deals with symbolic tiles and calls (see bounds); scoring library, shanten search and (unless stated) call offers stubbed." + COMMON,
    ),
    dict(
        id="C08",
        title="Game type and round facts are read correctly; unsupported games rejected",
        statement="From the game type bits and the round number the pipeline derives the right rule flags, number of rounds, rounds remaining, rounds each player will still deal, seat and prevailing wind; games that are not against humans, have no red fives, use early-kan rules, have three players or contain a disconnect are rejected with the invalid-game error and all others are accepted.",
        over=["inputs", "configurations"],
        forall="all game type words and all round numbers of a game",
        why="Tests never construct game types; each bit and bound matters separately.",
        files=["MahjongAI/gameinfo.py", "MahjongAI/process_xml.py"],
        mech=[("bit accessors", "GameInfo, RoundInfo"), ("filter", "process(): InvalidGameException")],
        note="Game type words and scheduled round numbers fully symbolic; round events fixed." + COMMON,
    ),
    dict(
        id="C09",
        title="Recorded decision states never change afterwards",
        statement="The state recorded with a decision point is a snapshot: no later event of the round or game alters any field of any earlier recorded state.",
        over=["histories"],
        forall="all histories within the stated bound on events",
        why="Aliasing shows only when a later event mutates a shared object; the tests never compare states across events.",
        files=["MahjongAI/process_xml.py", "MahjongAI/state.py"],
        mech=[("snapshotting", "process(): StateObject construction")],
        note="Rounds played from fixed deals with symbolic tiles and calls (see bounds); scoring library, shanten search and (unless stated) call offers stubbed." + COMMON,
    ),
    dict(
        id="C10",
        title="Hands and unseen-tile counts are accounted exactly",
        statement="At every recorded own-turn decision point (after a draw, and at the discard) the acting player's hand counts are exactly the tiles that player holds concealed, and the unseen-tile counts, both equal four of each kind (one of each red five) minus each physical tile counted once: from that player's point of view, the tiles that player has seen (own tiles, all discards, all laid melds and dora indicators); globally, the tiles dealt, drawn or shown as indicator. The discard record of every player marks exactly the kinds that player discarded.",
        over=["histories"],
        forall="all histories within the stated bound on events",
        why="Double counting arises only in particular sequences (call then discard, added kan, red fives, new dora).",
        files=["MahjongAI/process_xml.py"],
        mech=[("tile accounting", "process(): remaining_tiles, remaining_tiles_pov, hand_tensors")],
        note="Rounds played from fixed deals with symbolic tiles and calls (see bounds); scoring library, shanten search and (unless stated) call offers stubbed." + COMMON,
    ),
    dict(
        id="C11",
        title="The remaining-draw counter counts draws and nothing else",
        statement="At every own-turn decision point (after a draw, and at the discard) the remaining draw count equals 70 minus the number of tiles drawn so far in the round (replacement draws included), whatever calls, riichi or dora events occurred.",
        over=["histories"],
        forall="all histories within the stated bound on events",
        why="Errors need kan or dora events in the history; the tests contain none.",
        files=["MahjongAI/process_xml.py"],
        mech=[("draw counter", "process(): remaining_tsumo")],
        note="Rounds played from fixed deals with symbolic tiles and calls (see bounds); scoring library, shanten search and (unless stated) call offers stubbed." + COMMON,
    ),
    dict(
        id="C12",
        title="Riichi, one-shot, closed-hand, score and meld status follow the rules",
        statement="At every own-turn decision point (after a draw, and at the discard) the recorded status of each player (riichi, double riichi, one-shot chance, closed hand, points, melds) and of the table (riichi sticks, honba, dora indicators, dealer) is what the rules give for the events so far; a one-shot chance lasts until any call or the declarer's next discard, and double riichi requires an uninterrupted first turn.",
        over=["histories"],
        forall="all histories within the stated bound on events",
        why="Needs multi-event histories mixing calls and riichi; tests have none.",
        files=["MahjongAI/process_xml.py"],
        mech=[("status tracking", "process(): reaches, ippatsu, is_menzen, scores, melds")],
        note="Rounds played from fixed deals with symbolic tiles and calls (see bounds); scoring library, shanten search and (unless stated) call offers stubbed." + COMMON,
    ),
    dict(
        id="C13",
        title="The token stream is the public history, and decisions point into it",
        statement="A round's token stream contains exactly one token per discard, call, accepted riichi and revealed dora indicator, in log order, and each recorded decision point's position is the number of tokens emitted before it, so the tokens up to that position are exactly what was public at that moment.",
        over=["histories"],
        forall="all histories within the stated bound on events",
        why="Order and positions are properties of whole histories.",
        files=["MahjongAI/process_xml.py"],
        mech=[("token stream", "process(): encoding_tokens, encoding_idx")],
        note="Rounds played from fixed deals with symbolic tiles and calls (see bounds); scoring library, shanten search and (unless stated) call offers stubbed." + COMMON,
    ),
    dict(
        id="C14",
        title="Own-turn options are exactly the legal ones",
        statement="After a draw, the player is offered riichi exactly when the hand is closed, not already in riichi and one discard leaves it ready; a concealed kan for exactly each kind held four times; an added kan exactly for each own pon whose fourth tile is in hand, naming the right red five placement.",
        over=["histories", "inputs"],
        forall="all hands and histories within the stated bounds",
        why="Needs specific hands (four of a kind, pons plus fourth tile); tests have none.",
        files=["MahjongAI/process_xml.py", "MahjongAI/draw.py"],
        mech=[("own-turn options", "process(): draw event")],
        note="Rounds played from fixed deals with symbolic tiles and calls (see bounds); scoring library, shanten search and (unless stated) call offers stubbed." + COMMON,
    ),
    dict(
        id="C15",
        title="Win checks describe the situation correctly to the scoring library",
        statement="A win is offered to a player exactly when the scoring library values that player's full hand with the winning tile, melds, dora and the true circumstances (riichi, one-shot, seat and prevailing wind, last tile, added kan, first-turn wins, dealer); a player who already discarded the winning tile's kind is never offered a ron, the discarder never is, and evaluation leaves all hands unmodified.",
        over=["inputs"],
        forall="all hands, melds, circumstances within the stated bounds, with the scoring library replaced by an arbitrary answer",
        why="Each circumstance flag and seat combination matters separately; tests cover none.",
        files=["MahjongAI/utils/agari.py", "MahjongAI/process_xml.py"],
        mech=[("win evaluation", "evaluate_ron, evaluate_tsumo in MahjongAI/utils/agari.py")],
        note="Scoring library replaced by a recorder with arbitrary answers for complete hands; process-level rounds from two deals." + COMMON,
    ),
    dict(
        id="C16",
        title="Own-turn training samples: legal mask, and label equal to the move made",
        statement="For every own-turn decision point a training sample's action mask contains pass plus exactly the offered actions' slots, its label is the slot of the executed action or pass when none was executed, the label is inside the mask, and a sample is produced exactly when there is a choice; this holds for each of the four models.",
        over=["inputs"],
        forall="all decision lists (offers and executed marks) within the stated bound, all four model variants",
        why="Needs combinations of several offers with different executed marks; tests have none.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("sample builder", "TransformerTensorProcessor._build_during_tensor")],
        note="Recorded turns with symbolic meld codes through prepare_batches; Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C17",
        title="Discard training samples: mask is the hand, label the discarded kind",
        statement="For every discard a training sample's mask allows exactly the kinds held in hand at the discard, and its label is the kind actually discarded, inside the mask; this holds for each of the four models.",
        over=["inputs"],
        forall="all hands and discards, all four model variants",
        why="The only tensor test fails before asserting; it samples one hand.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("sample builder", "TransformerTensorProcessor._build_discard_tensor")],
        note="Symbolic hands and discarded tiles through prepare_batches; Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C18",
        title="Response training samples: legal mask, and label equal to the move made",
        statement="For every discard and every player offered a response to it, in seat order after the discarder, a training sample's mask contains pass plus exactly the slots of that player's offered actions and its label, inside the mask, is the slot of that player's executed action, or pass; players without offers yield no sample. Once a player has acted, the players after may be left out, since what they wanted is not known. This holds for each of the four models.",
        over=["inputs"],
        forall="all decision lists within the stated bound, all four model variants",
        why="Needs combinations of offers to several players; tests have none.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("sample builder", "TransformerTensorProcessor._build_post_tensor")],
        note="Recorded response points with symbolic meld codes through prepare_batches; Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C19",
        title="Training samples never reveal the future",
        statement="The event sequence a training sample shows the model holds exactly the tokens emitted before that decision point and padding after them; no later event influences the sample, for each of the four models and for any position of the decision in the game.",
        over=["inputs", "histories"],
        forall="all token streams, positions and batch layouts within the stated bound, all four model variants",
        why="Leakage shows only when tokens after the decision are compared; no test does.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("history slicing", "TransformerTensorProcessor.get_* and encoding tensors")],
        note="Symbolic token values, stated lengths and positions; Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C20",
        title="State features carry the recorded state unchanged",
        statement="The numeric state vectors given to a model have the shape the model expects and carry the recorded values in their own places: hand, tiles unseen by the player, discards (the deciding player's own; all four, starting with the deciding player, in the ordered model), scores, dealer, rounds left to deal, double riichi, riichi, ippatsu and concealed flags per player, remaining draws, riichi sticks, honba and rounds left. Two states that differ in one of them never give the same vectors, and the model's state network uses every number, each for its own sample only.",
        over=["inputs"],
        forall="all recorded states within the stated bounds, all four model variants",
        why="A swapped or dropped component is invisible to shape-level tests.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("state vector", "TransformerTensorProcessor state tensor construction")],
        note="Symbolic recorded states; that every number reaches the network is decided by dependence through the stand-in layers. Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C21",
        title="The encoder reads real events and ignores padding",
        statement="In each of the four models the sequence the encoder builds before its attention blocks carries, for every event, the event's position and the embeddings of exactly the fields it has: type for all, tile for discards and dora, the player for discards and calls (relative to the deciding player in the ordered model), the drawn-tile mark for discards of the tile just drawn, and the own-turn or response slot for calls; padding positions contribute nothing. This holds for every sequence length.",
        over=["inputs"],
        forall="all token sequences within the stated bound, all four model variants, arbitrary embedding weights",
        why="Whether a mask keeps or drops real events cannot be seen from output shapes.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("masking", "Encoder.forward")],
        note="Encoder without attention blocks, width 8, coded embedding tables, symbolic event fields; Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C22",
        title="The models only ever choose legal actions",
        statement="Whatever its weights compute, a model asked for a decision leaves the scores of the actions allowed by the mask unchanged and pushes those of all others so low that they are never the best and get probability zero, on every head and in each of the four models.",
        over=["inputs"],
        forall="all logits and masks within the stated bound, all four model variants",
        why="Depends on arbitrary logits; tests never run the models.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("masked output", "Decoder/agent forward")],
        note="Head outputs replaced by arbitrary integer scores, arbitrary masks; Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C23",
        title="Training batches keep the parts of each sample together",
        statement="When samples of several games are collected and subsampled into batches, each row of the event, state, mask and label arrays comes from the same decision point, no row is invented, and none is used twice in one batch.",
        over=["inputs", "histories"],
        forall="all batch contents and sampling choices within the stated bound",
        why="Misalignment depends on the sampled indices.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/supervised_learning.py"],
        mech=[("batch assembly", "model forward/loss, supervised_learning")],
        note="Recorded games of fixed layouts with symbolic contents; arbitrary random orders. Tensors are symbolic stand-ins with torch's dtypes; learned layers answer arbitrary values." + COMMON,
    ),
    dict(
        id="C24",
        title="The data loader yields every valid game exactly once, in batches",
        statement="Iterating the loader yields the games of the directory's readable logs, each exactly once and in order, in batches of the configured size with only the last one smaller; rejected or unreadable logs are skipped without losing or repeating another game or ending the program, and a reset starts over.",
        over=["inputs", "fault_sequences"],
        forall="all directories of up to the stated number of files with any pattern of valid, rejected and failing logs, all batch sizes",
        why="Depends on the pattern of failures; no test touches the loader.",
        files=["MahjongAI/utils/dataloader.py"],
        mech=[("iteration", "DataLoader.__next__/reset")],
        note="Directories of up to 4 (thorough: 5) logs, each valid or failing in any of four ways, all batch sizes up to 5, one reset. Parsing a log is a stub here (see the other properties)." + COMMON,
    ),
    dict(
        id="C25",
        title="Training resumes from the newest checkpoint and continues its numbering",
        statement="Training resumes from the checkpoint with the highest step number among those present and saves later checkpoints under increasing numbers, so no existing newer checkpoint is overwritten or ignored. A run killed while saving leaves the finished checkpoints usable and the next run resumes from the newest of them.",
        over=["inputs", "histories", "fault_sequences"],
        forall="all sets of checkpoint files and training lengths within the stated bound",
        why="Depends on which files exist; no test runs training.",
        files=["MahjongAI/supervised_learning.py"],
        mech=[("resume", "find_latest_checkpoint, train")],
        note="Up to three existing checkpoints with any numbers 0..99999 among other files, up to three iterations; the program killed during any save. Models, optimizer and torch.save/load are stand-ins on real scratch files (a killed save leaves a partial file)." + COMMON,
    ),
    dict(
        id="C26",
        title="The learning-rate schedule stays between zero and one and behaves",
        statement="For every step the learning-rate factor lies in [0, 1], rises during warm-up, never rises afterwards, and ends at its floor when training ends.",
        over=["inputs"],
        forall="all steps, and all triples of steps, up to three million",
        why="Boundary steps and degenerate lengths are not tested.",
        files=["MahjongAI/supervised_learning.py"],
        mech=[("schedule", "learning-rate lambda in supervised_learning")],
        note="All steps up to three times the training length; cosine is known to the solver by monotonicity and 33 grid values." + COMMON,
    ),
    dict(
        id="C27",
        title="The shanten calculator agrees with the rules of the game",
        statement="The package's own shanten calculator returns, for every hand within the stated bound, the true distance to a ready hand (0 ready, -1 complete): the fewest tiles that have to be exchanged to reach the standard form, using no tile kind more than four times, or, for closed hands only, seven different pairs or thirteen orphans. Red fives count as the fives they are, and the hand is left as it was.",
        over=["inputs"],
        forall="all hands within the stated bounds",
        why="Rare hands matter and tests contain none.",
        files=["MahjongAI/utils/shanten.py"],
        mech=[("shanten search", "utils/shanten.py")],
        note="Standard form: families of hands (up to nine free suit kinds, up to 14 honors in any number, beside fixed tiles) against a dynamic program over all possible completions; seven pairs and thirteen orphans: every hand of 13 or 14 tiles. Hands outside the listed families are not covered." + COMMON,
    ),
    dict(
        id="C28",
        title="Logs are split into rounds without losing or moving events",
        statement="A log file's elements are split into rounds at each round start, in document order, every game event belonging to exactly the round it occurred in and header elements to none; logs with a disconnect or without exactly one game-type element are rejected.",
        over=["inputs", "histories"],
        forall="all element sequences within the stated bound",
        why="Boundary cases (consecutive rounds, header elements between rounds) are not tested.",
        files=["MahjongAI/process_xml.py"],
        mech=[("grouping", "_get_rounds")],
        note="Element names symbolic within the stated document length; the XML parser is trusted." + COMMON,
    ),
    dict(
        id="C29",
        title="Response decisions are trained from the responder's own viewpoint",
        statement="The state shown for a response decision (call or ron) is that of the player who decides: that player's hand and that player's view of the unseen tiles, never the discarder's.",
        over=["histories"],
        forall="all response decision points",
        why="Requires comparing the viewpoint of the sample with the deciding player.",
        files=["MahjongAI/process_xml.py", "MahjongAI/agents/transformer.py"],
        mech=[("viewpoint", "PostTurn state and TransformerTensorProcessor._build_post_tensor")],
        note="Scripted rounds of 3-12 events with symbolic tiles and calls run through process() and prepare_batches together; win offers to the others are arbitrary (win evaluation replaced). Whether the one-shot chance already counts at the discard of a riichi not yet accepted is left open." + COMMON,
    ),
    dict(
        id="C30",
        title="Every training loss updates the weights once, validation never does",
        statement="Each iteration passes once over one year's games, the years taken in turn also across resumed runs; every batch is given to the model whole, and every loss it yields leads to exactly one weight update computed from that loss alone, followed by one step of the learning-rate schedule. Validation runs on all decisions in evaluation mode, reports the mean of its losses, never changes weights, and leaves the model in training mode and its data ready for the next validation; a checkpoint is written after the iteration's last update.",
        over=["inputs", "histories"],
        forall="all numbers of losses per batch, batches, iterations and resumption points within the stated bound",
        why="Accumulated gradients, skipped updates or exhausted loaders show only over several batches and iterations; no test runs training.",
        files=["MahjongAI/supervised_learning.py"],
        mech=[("training loop", "train"), ("validation", "estimate_loss")],
        note="Up to three batches of 1..2 losses per iteration, eighteen iterations, resumption after any iteration 0..40; models, optimizer, schedule and data are recording stand-ins. A batch yields at least one loss." + COMMON,
    ),
    dict(
        id="C31",
        title="Rounds do not influence each other",
        statement="What is recorded for a round (decision points with their states, offers and executed marks, tokens, and what the call and win checks are told) depends only on the game's settings and that round's own events; rounds before or after it in the same log change nothing, however they ended.",
        over=["histories"],
        forall="all pairs of rounds within the stated bound",
        why="State left over from a round matters only after particular endings (a kan without its draw, a running riichi, an abort in mid-turn); the tests process no log of two rounds.",
        files=["MahjongAI/process_xml.py"],
        mech=[("per-round state", "process()"), ("grouping", "_get_rounds")],
        note="Pairs of scripted rounds with symbolic tiles, calls, scores and counters; the log of both is compared with the logs of each alone. Win and call checks are replaced by recording stand-ins." + COMMON,
    ),
    dict(
        id="C32",
        title="Every linked game log is downloaded once and stored under its own id",
        statement="The download script requests each game log linked on the saved pages exactly once and stores its body unchanged as <id>.log exactly when the request is answered with status 200; other links, bare text and other files cause no requests, and a failed request affects no other log.",
        over=["inputs", "fault_sequences"],
        forall="all answer codes and page forms within the stated bound",
        why="Answers other than 200 and links of other forms do not occur in a test; there is none for the script.",
        files=["MahjongAI/data/scrape_data.py"],
        mech=[("link extraction and download", "data/scrape_data.py")],
        note="Pages of up to four links in seven forms, symbolic status codes; the network library is a stand-in and the script runs in a scratch directory. Requests that raise are out of scope." + COMMON,
    ),
    dict(
        id="C33",
        title="The training loss is the cross-entropy of the masked scores against the labels",
        statement="For each kind of decision that occurs in a batch, in each of the four models, the model reports exactly one loss: the mean over all that kind's samples, equally weighted, of minus the logarithm of the probability that the returned masked scores of the sample's own row give to its label. Illegal actions contribute nothing and no label is left out.",
        over=["inputs"],
        forall="all masks, labels and scores within the stated bound",
        why="A loss on unmasked scores, with weighted or omitted labels or another reduction still trains; no test computes one.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("masking and loss", "Decoder.forward"), ("one loss per kind", "the models' forward")],
        note="Scores of any value -60..60, two rows with any masks and labels, and whole batches of two games; the logarithm of the sum of exponentials is a function of its arguments that grows with a common shift. Weighting and reduction are compared within 0.01. Subsampled batches are C23's." + COMMON,
    ),
    dict(
        id="C34",
        title="The answer to a decision depends on that decision alone, and on all of it",
        statement="In evaluation mode, the scores each of the four models gives for a decision are determined by that decision's own events before it, state and (ordered model) deciding player: they are the same whether it is asked alone or in a batch with any others, in any position, whatever those hold. And none of these inputs is ignored: changing one event, a tile count, a score or the honba can change the scores of the decision it belongs to, and of no other.",
        over=["inputs"],
        forall="all events, states and batch-mates within the stated bound, whatever the layers have learned",
        why="Attention or normalisation along the wrong axis, a dropout left on, an encoding cached from another kind of decision, or a lone decision that loses its row dimension all run and train; no test evaluates a model.",
        files=["MahjongAI/agents/transformer.py", "MahjongAI/agents/transformer_conv.py", "MahjongAI/agents/transformer_conv_large.py", "MahjongAI/agents/transformer_conv_ordered.py"],
        mech=[("encoder", "Encoder.forward, EncoderBlock.forward"), ("decoder", "Decoder.forward, DecoderBlock.forward"), ("state network", "StateNet.forward"), ("attention", "Head.forward, MultiHeadAttention.forward")],
        note="Up to 3 events (8 in the thorough tier), three games, embedding width 8; each layer an arbitrary function of the vectors it is given, so the result holds for all weights; dropout off in evaluation mode. That scores respond is shown for some weights, and confirmed with random ones on the real code." + COMMON,
    ),
]
