"""C24-C26, C30: feeding the training loop, checkpoints, learning rate, update steps."""
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np

from engine import core
from engine.core import And, Or, Not, Implies, Iff, ite, is_sym
from engine.runner import harness

LOADER = ("utils.dataloader", "process_xml")


def scratch(ctx):
    d = tempfile.mkdtemp(prefix="train_")
    ctx.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def patch(ctx, obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    ctx.cleanups.append(lambda: setattr(obj, name, old))


# ------------------------------------------------------------------------ C24
FAILS = ("ok", "rejected", "integrity", "value", "unreadable")


def fail(P, kind):
    if kind == "rejected":
        raise P.InvalidGameException("rejected by the check")
    raise {"integrity": AssertionError, "value": ValueError, "missing": KeyError, "unreadable": OSError, "division": ZeroDivisionError}[kind](kind)


def feed(ctx, M, names):
    """a directory of logs; log i is valid or fails in one of the ways; -> loader factory, log of calls"""
    P, D = M("process_xml"), M("utils.dataloader")
    if "print" not in vars(D):
        D.print = lambda *a, **k: None
        ctx.cleanups.append(lambda: delattr(D, "print"))
    d = scratch(ctx)
    for n in names:
        with open(os.path.join(d, n), "w") as f:
            f.write("<mjloggm/>")
    fate = {n: ctx.int("log%d" % i, 0, len(FAILS) - 1) for i, n in enumerate(names)}

    read = []

    def process(path, *a, **k):
        n = os.path.basename(str(path))
        v = fate[n]
        read.append(n)
        ctx.check(len(read) <= 8 * (len(names) + 1), "ends", n)  # a few passes over the directory at most
        for i, kind in enumerate(FAILS):
            if i and v == i:
                fail(P, kind)
        return ["game", n], ["events", n]

    patch(ctx, P, "process", process)
    if hasattr(D, "process"):
        patch(ctx, D, "process", process)
    return d, fate


def batches_of(ctx, loader, limit):
    out = []
    for b in loader:
        out.append(b)
        ctx.check(len(out) <= limit, "ends")
    return out


def check_pass(ctx, out, names, fate, size, order):
    """one full pass: the valid logs, once each, in the directory's order, in batches"""
    got = []
    for k, (games, events) in enumerate(out):
        ctx.check(len(games) == len(events), "games-with-their-events", (len(games), len(events)))
        ctx.check(len(games) >= 1, "empty-batch", k)
        for g, e in zip(games, events):
            ctx.check(g[0] == "game" and e[0] == "events" and g[1] == e[1], "games-with-their-events", (g, e))
            got.append(g[1])
        if k < len(out) - 1:
            ctx.check(len(games) == size, "full-batches", (k, len(games), size))
        else:
            ctx.check(len(games) <= size, "batch-size", (k, len(games), size))
    ctx.check(len(set(got)) == len(got), "game-repeated", got)
    for n in names:
        if n in got:
            ctx.check(fate[n] == 0, "rejected-log-used", n)
        else:
            ctx.check(fate[n] != 0, "game-lost", n)
    ctx.check(got in [[n for n in o if n in got] for o in order], "in-order", got)


@harness("C24", variants=lambda tier: [(n, b) for n in ((0, 1, 2, 3, 4) if tier == "quick" else (0, 1, 2, 3, 4, 5)) for b in (1, 2, 3, 5) if b <= max(n, 1) + 1], modules=LOADER, torch=True,
         covers=("none", "some", "all-failing", "last-smaller"), bounds=lambda tier: "directories of up to %d logs, each valid or failing in one of four ways, batch sizes 1..5; a partial pass, a reset and a full pass" % (4 if tier == "quick" else 5))
def passes(ctx, M, n, size):
    names = ["%s.log" % c for c in "cadbe"[:n]]
    d, fate = feed(ctx, M, names)
    order = [os.listdir(d), sorted(names)]
    loader = M("utils.dataloader").DataLoader(d + os.sep, size, lambda *a: None)
    out = batches_of(ctx, loader, n + 2)
    check_pass(ctx, out, names, fate, size, order)
    ctx.cover("none", n == 0)
    ctx.cover("some", len(out) > 1)
    ctx.cover("all-failing", n > 0 and not out)
    ctx.cover("last-smaller", len(out) > 0 and len(out[-1][0]) < size)
    # exhausted stays exhausted until a reset
    ctx.check(next(loader, None) is None, "exhausted")
    loader.reset()
    if out:
        first = next(loader)
        ctx.check(first[0] == out[0][0], "reset-starts-over", first)
        loader.reset()
    again = batches_of(ctx, loader, n + 2)
    ctx.check([b[0] for b in again] == [b[0] for b in out], "reset-starts-over", len(again))


# ------------------------------------------------------------- the training program
TRAIN = ("supervised_learning", "utils.dataloader")
NAMES = ("transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_large_3", "transformer_conv_ordered", "transformer_conv_ordered_large_2", "transformer_conv_ordered_large_3",
         "transformer_conv_ordered_large_4", "transformer_conv_ordered_large_5")


class Killed(BaseException):
    """the program is killed here"""


class Over:
    """a module seen with some of its members replaced"""

    def __init__(self, real, **over):
        self.__dict__.update(over)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


class World:
    """What the training program touches: models, optimizer, schedule, data, files.
    Every call is recorded in order."""

    def __init__(self, ctx, M, losses=lambda data: [], batches=lambda path: []):
        self.ctx, self.log = ctx, []
        self.kill_at = None  # number of the save during which the program is killed
        self.saves = 0
        self.serial = 0
        self.lambdas = []
        self.training = True
        self.value = lambda tag: 1.0
        S = self.S = M("supervised_learning")
        w = self

        class Loss:
            def __init__(self, tag):
                self.tag = tag

            def backward(self, *a, **k):
                w.log.append(("backward", self.tag))

            def item(self):
                return w.value(self.tag)

            def __getattr__(self, n):
                if n in ("detach", "cpu"):
                    return lambda *a, **k: self
                raise AttributeError(n)

            def __float__(self):
                return 1.0

        class Model:
            def __init__(self, *a):
                self.weights = None
                w.log.append(("model", a))

            def to(self, *a, **k):
                return self

            def parameters(self):
                return ["parameters"]

            def train(self, mode=True):
                w.training = bool(mode)
                return self

            def eval(self):
                w.training = False
                return self

            def state_dict(self):
                w.serial += 1
                return ("weights", w.serial)

            def load_state_dict(self, s, *a, **k):
                w.log.append(("loaded", s))

            def __call__(self, games, events, sample=False, **k):
                for tag in losses(games):
                    w.log.append(("forward", tag, bool(sample), w.training, events))
                    yield "logits", Loss(tag)

        class Optimizer:
            def __init__(self, params, *a, **k):
                self.param_groups = [{"lr": 1.0}]

            def zero_grad(self, *a, **k):
                w.log.append(("zero_grad",))

            def step(self, *a, **k):
                w.log.append(("step",))

        class Schedule:
            def __init__(self, opt, lr_lambda, *a, **k):
                w.lambdas.append(lr_lambda)

            def step(self, *a, **k):
                w.log.append(("schedule",))

        class Data:
            def __init__(self, path, batch_size=1, log_func=print):
                self.path, self.batch_size, self.i = path, batch_size, 0
                self.items = batches(path)

            def __iter__(self):
                return self

            def __next__(self):
                if self.i >= len(self.items):
                    raise StopIteration
                self.i += 1
                w.log.append(("batch", self.path, self.i - 1))
                return self.items[self.i - 1]

            def reset(self):
                w.log.append(("reset", self.path))
                self.i = 0

            def __repr__(self):
                return "data " + self.path

        def save(obj, path, *a, **k):
            w.saves += 1
            cut = w.kill_at is not None and bool(w.kill_at == w.saves)
            with open(path, "w") as f:
                f.write("half" if cut else "%s %d" % obj)
            w.log.append(("saved", str(path)))
            if cut:
                raise Killed()

        def load(path, *a, **k):
            with open(path) as f:
                t = f.read()
            w.log.append(("load", str(path), t))
            if not t.startswith("weights "):
                raise RuntimeError("checkpoint is incomplete")
            return ("weights", int(t[8:]))

        opt = Over(getattr(S.torch, "optim", None), AdamW=Optimizer, Adam=Optimizer, SGD=Optimizer, lr_scheduler=Over(None, LambdaLR=Schedule))
        torch = getattr(S, "torch", None)
        over = Over(torch, save=save, load=load, optim=opt)
        stands = {"AdamW": Optimizer, "Adam": Optimizer, "SGD": Optimizer, "LambdaLR": Schedule, "save": save, "load": load, "optim": opt, "lr_scheduler": opt.lr_scheduler, "torch": over}
        for n, v in list(vars(S).items()):
            # also when imported by name
            if n == "torch" or getattr(v, "__module__", "").startswith("torch.") or getattr(v, "__name__", "").startswith("torch."):
                k = n if n in stands else getattr(v, "__name__", "").split(".")[-1]
                if k in stands:
                    patch(ctx, S, n, stands[k])
        for n in [n for n in vars(S) if n.startswith("Transformer") and n.endswith("Model")]:
            patch(ctx, S, n, Model)
        patch(ctx, S, "DataLoader", Data)
        if hasattr(S, "log_message"):
            patch(ctx, S, "log_message", lambda *a, **k: None)
        patch(ctx, S, "re", Digits(S.re)) if hasattr(S, "re") else None
        self.dir = scratch(ctx)
        if not hasattr(ctx, "home"):
            ctx.home = os.getcwd()
        os.chdir(self.dir)
        ctx.cleanups.append(lambda: os.chdir(ctx.home))

    def kinds(self, *names):
        return [l for l in self.log if l[0] in names]

    def checkpoints(self, name):
        """[(number, content)] of the model's checkpoints on disk"""
        out = []
        d = os.path.join(self.dir, "saved_models")
        pre = "model_%s_checkpoint_iter_" % name
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.startswith(pre) and f.endswith(".pt"):
                t = f[len(pre):-3]
                n = core.parse_token(t) if self.ctx.symbolic else None
                if n is None:
                    if not t.isascii() or not t.isdigit():
                        continue
                    n = int(t)
                out.append((n, open(os.path.join(d, f)).read()))
        return out

    def put(self, name, number, text):
        d = os.path.join(self.dir, "saved_models")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "model_%s_checkpoint_iter_%s.pt" % (name, number)), "w") as f:
            f.write(text)


class Digits:
    """re, with [0-9] read as any digit (symbolic numbers are spelled in other digits)"""

    def __init__(self, re):
        self._re = re

    def __getattr__(self, n):
        f = getattr(self._re, n)
        if n in ("search", "match", "fullmatch", "compile", "findall", "finditer", "sub", "split"):
            return lambda p, *a, **k: f(p.replace("[0-9]", r"\d") if isinstance(p, str) else p, *a, **k)
        return f


def other(name):
    return NAMES[(NAMES.index(name) + 1) % len(NAMES)]


def existing(ctx, w, name, k):
    """k checkpoints of the model with any numbers, among other files"""
    nums = [ctx.int("have%d" % i, 0, 99999) for i in range(k)]
    for i in range(k):
        for j in range(i):
            ctx.assume(nums[i] != nums[j])
    for i, n in enumerate(nums):
        w.put(name, n, "weights %d" % (1000 + i))
    w.put(other(name), 100001, "weights 1")
    w.put(name + "_x", 100002, "weights 2")
    with open(os.path.join(w.dir, "saved_models", "notes_iter_100003.txt"), "w") as f:
        f.write("weights 3")
    return nums


@harness("C25", variants=lambda tier: [(n, k) for n in (NAMES if tier != "quick" else NAMES[:1] + NAMES[2:5]) for k in (0, 1, 2, 3)], modules=TRAIN, torch=True, covers=("none", "first-listed", "last-listed"),
         bounds="up to three checkpoints with any numbers 0..99999 among other models' files")
def newest(ctx, M, name, k):
    w = World(ctx, M)
    nums = existing(ctx, w, name, k)
    n, path = w.S.find_latest_checkpoint(name, "saved_models")
    if not k:
        ctx.check(path is None and n == 0, "none-found", path)
        ctx.cover("none")
        return
    ctx.check(path is not None, "one-found")
    top = nums[0]
    for v in nums[1:]:
        top = ite(v > top, v, top)
    ctx.check(n == top, "newest-number", n)
    with open(path) as f:
        i = int(f.read()[8:]) - 1000
    ctx.check(0 <= i < k and nums[i] == top, "newest-file", path)
    ctx.cover("first-listed", nums[0] == top)
    ctx.cover("last-listed", nums[-1] == top)


@harness("C25", variants=lambda tier: [(NAMES[(k + n) % len(NAMES)], k, n) for k in (0, 1, 2) for n in (0, 1, 2, 3)] + [(n, 1, 1) for n in NAMES], modules=TRAIN, torch=True, covers=("fresh", "resumed"),
         bounds="up to two checkpoints with any numbers, 0..3 further iterations, each of the nine configurations")
def numbering(ctx, M, name, k, n):
    w = World(ctx, M)
    nums = existing(ctx, w, name, k)
    before = w.checkpoints(name)
    w.S.train(name, n)
    loads = w.kinds("loaded")
    ctx.check(len(loads) == (1 if k else 0), "resumes-from-a-checkpoint", loads)
    top = -1
    for v in nums:
        top = ite(v > top, v, top)
    if k:
        i = loads[0][1][1] - 1000
        ctx.check(0 <= i < k and nums[i] == top, "newest-loaded", i)
    after = w.checkpoints(name)
    ctx.check(len(after) == len(before) + n, "one-file-per-iteration", (len(before), len(after)))
    for num, text in before:
        ctx.check(Or([And(a == num, t == text) for a, t in after]), "existing-kept", text)
    # the j-th save of this run carries the j-th number after the newest
    new = [(a, int(t[8:])) for a, t in after if t.startswith("weights ") and int(t[8:]) < 1000]
    ctx.check(len(new) == n, "saved-whole", new)
    for a, serial in new:
        ctx.check(a == top + serial, "next-number", (a, serial))
    ctx.cover("resumed" if k else "fresh")


@harness("C25", variants=lambda tier: [(n, k) for n in (NAMES[:2] if tier == "quick" else NAMES) for k in (0, 1, 2)], modules=TRAIN, torch=True, covers=("first-save", "later-save"),
         bounds="up to two checkpoints, a run of two iterations killed during either save, then a run of one more")
def killed_while_saving(ctx, M, name, k):
    w = World(ctx, M)
    nums = existing(ctx, w, name, k)
    w.kill_at = ctx.int("kill", 1, 2)
    try:
        w.S.train(name, 2)
    except Killed:
        pass
    w.kill_at = None
    ctx.cover("first-save", w.saves == 1)
    ctx.cover("later-save", w.saves == 2)
    whole = [(a, t) for a, t in w.checkpoints(name) if t.startswith("weights ")]
    ctx.check(len(whole) == k + w.saves - 1, "finished-saves-kept", (len(whole), w.saves))
    top, at = -1, -1
    for a, t in whole:
        at = ite(a > top, int(t[8:]), at)
        top = ite(a > top, a, top)
    w.log.clear()
    w.S.train(name, 1)
    loads = w.kinds("loaded")
    ctx.check(len(loads) == (1 if whole else 0), "resumes-from-a-checkpoint", loads)
    if loads:
        ctx.check(loads[0][1][1] == at, "newest-whole-loaded", loads)
    after = w.checkpoints(name)
    for num, text in whole:
        ctx.check(Or([And(a == num, t == text) for a, t in after]), "existing-kept", text)
    ctx.check(Or([And(a == top + 1, t == "weights %d" % w.serial) for a, t in after]), "next-number", len(after))


# ------------------------------------------------------------------------ C26
class Cosine:
    """cos of an unknown angle: known to fall from 1 to -1 over [0, pi], to lie between
    its values at a grid of angles, and to be even and periodic"""

    GRID = 32

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []
        pi = Fraction(math.pi)
        self.grid = [(pi * i / self.GRID, Fraction(math.cos(math.pi * i / self.GRID))) for i in range(self.GRID + 1)]

    def __call__(self, x):
        if not is_sym(x):
            return math.cos(x)
        if isinstance(x, core.SymInt):
            x = x.as_real()
        pi = Fraction(math.pi)
        if x < 0:
            x = -x
        for k in range(12):
            if x <= (k + 1) * pi:
                break
        else:
            raise core.Unsupported("cos of a large angle")
        u = x - k * pi if k % 2 == 0 else (k + 1) * pi - x

        def facts(y):
            yield y >= -1
            yield y <= 1
            for a, c in self.grid:
                yield Implies(u <= a, y >= c)
                yield Implies(u >= a, y <= c)
            for v, z in self.calls:
                yield Implies(u == v, y == z)
                yield Implies(u < v, y > z)
                yield Implies(u > v, y < z)

        y = self.ctx.unknown_real("cos", facts)
        self.calls.append((u, y))
        return y


def schedule_of(ctx, M, name):
    w = World(ctx, M)
    if ctx.symbolic:
        patch(ctx, w.S, "math", Over(w.S.math, cos=Cosine(ctx)))
    w.S.train(name, 0)
    ctx.check(len(w.lambdas) == 1, "one-schedule", len(w.lambdas))
    f = w.lambdas[0]
    return f[0] if isinstance(f, (list, tuple)) else f


STEPS = 3000000  # three times the documented 1,000,000 training steps
TOTAL = 1000000


@harness("C26", variants=lambda tier: [(n,) for n in (NAMES[:1] if tier == "quick" else NAMES)], modules=TRAIN, torch=True, reals=True, covers=("early", "late", "beyond"), bounds="all steps 0..3,000,000; cosine known by monotonicity and 33 grid values")
def in_range(ctx, M, name):
    f = schedule_of(ctx, M, name)
    a = ctx.whole("a", 0, STEPS)
    y = f(a)
    ctx.check(y >= 0, "not-negative", a)
    ctx.check(y <= 1, "at-most-one", a)
    ctx.check(Implies(a >= TOTAL, y <= Fraction(1, 10**6)), "floor-at-the-end", a)
    ctx.cover("early", a < 500)
    ctx.cover("late", a > 500000)
    ctx.cover("beyond", a > TOTAL)


@harness("C26", variants=lambda tier: [(n,) for n in (NAMES[:1] if tier == "quick" else NAMES)], modules=TRAIN, torch=True, reals=True, covers=("rising", "falling", "around-the-peak"), bounds="all three steps a < b < c up to 3,000,000")
def one_peak(ctx, M, name):
    f = schedule_of(ctx, M, name)
    a, b, c = [ctx.whole(n, 0, STEPS) for n in "abc"]
    ctx.assume(a < b)
    ctx.assume(b < c)
    x, y, z = f(a), f(b), f(c)
    # having fallen (or stood still below the peak) it does not rise
    ctx.check(Not(And(x > y, z > y)), "rises-again", (a, b, c))
    ctx.check(Not(And(x == y, z > y)), "stands-still-then-rises", (a, b, c))
    ctx.cover("rising", And(x < y, y < z))
    ctx.cover("falling", And(x > y, y > z))
    ctx.cover("around-the-peak", And(x < y, y > z))
    # the ends and the peak
    ctx.check(f(0) <= 0.01, "starts-low", f(0))
    ctx.check(f(1) > f(0), "rises-at-once", f(1))
    ctx.check(f(TOTAL // 2) < 0.99, "falls-before-the-end", f(TOTAL // 2))
    top = ctx.whole("top", 0, STEPS)
    ctx.check(f(top) <= max(f(s) for s in (999, 1000, 1001)) , "peak-after-warm-up", top)
    ctx.check(max(f(s) for s in (999, 1000, 1001)) >= 0.999, "reaches-full-rate")


# ------------------------------------------------------------------------ C30
@harness("C30", variants=lambda tier: [(n, b, v) for n in (NAMES[:1] + NAMES[2:3] if tier == "quick" else NAMES) for b in ((0, 1, 2, 3)) for v in (1, 2)], modules=TRAIN, torch=True, covers=("validated", "several-losses"),
         bounds="one iteration over up to three batches of 1..2 losses each, one or two validation batches of 1..2 losses")
def updates(ctx, M, name, nb, nv):
    run(ctx, M, name, nb, nv, 1, 2)


@harness("C30", variants=lambda tier: [(NAMES[0], 2, 1, 18)] + ([] if tier == "quick" else [(n, 2, 2, 17) for n in NAMES]), modules=TRAIN, torch=True, covers=("validated", "every-directory"), bounds="eighteen iterations (thorough: seventeen more for every configuration) of two batches of one loss")
def rounds_of_data(ctx, M, name, nb, nv, iters):
    run(ctx, M, name, nb, nv, iters, 1)
    ctx.cover("every-directory")


@harness("C30", variants=lambda tier: [(NAMES[0], 203), (NAMES[2], 502)], modules=TRAIN, torch=True, covers=("validated", "again"), bounds="an iteration long enough to be validated again midway")
def validated_midway(ctx, M, name, nb):
    w = run(ctx, M, name, nb, 1, 1, 1)
    ctx.cover("again", sum(l[0] == "reset" for l in w.log) > 2)


def run(ctx, M, name, nb, nv, iters, most):
    count = {}

    def losses(games):
        path, i = games
        if games not in count:
            count[games] = ctx.int("losses_%s_%d" % (os.path.basename(path.rstrip("/")), i), 1, most)
        for j in range(int(ctx.concretize(count[games])) if is_sym(count[games]) else count[games]):
            yield (path, i, j)

    w = World(ctx, M, losses, lambda path: [((path, i), ("events", path, i)) for i in range(nv if "2021" in path else nb)])
    w.S.train(name, iters)
    # which directories are trained on: those whose forward passes are sampled
    trained, grads, applied, since, cur = [], [], [], 0, None
    passes_, steps = [], 0
    pending = None
    for l in w.log:
        k = l[0]
        if k == "batch":
            cur = (l[1], l[2])
            passes_.append(cur)
        elif k == "forward":
            _, tag, sample, training, events = l
            ctx.check(tag[:2] == cur, "batch-passed-whole", (tag, cur))
            ctx.check(events == ("events", tag[0], tag[1]), "games-with-their-events", events)
            ctx.check(pending is None, "loss-not-used", pending)
            if "2021" in tag[0]:
                ctx.check(not sample, "validation-on-whole-batches", tag)
                ctx.check(not training, "validation-in-evaluation-mode", tag)
                ctx.cover("validated")
            else:
                ctx.check(sample, "training-on-samples", tag)
                ctx.check(training, "training-in-training-mode", tag)
                trained.append(tag)
                pending = tag
                if tag[2]:
                    ctx.cover("several-losses")
        elif k == "zero_grad":
            grads = []
        elif k == "backward":
            ctx.check("2021" not in l[1][0], "validation-changes-weights", l[1])
            grads.append(l[1])
        elif k == "step":
            ctx.check(pending is not None and grads == [pending], "step-from-its-own-loss", (pending, grads))
            ctx.check(since == 0, "schedule-per-step", since)
            applied.append(pending)
            steps += 1
            since, pending = 1, None
        elif k == "schedule":
            ctx.check(since == 1, "schedule-per-step", since)
            since = 0
        elif k == "saved":
            ctx.check(pending is None, "saved-before-the-update", pending)
            passes_.append("saved")
    ctx.check(pending is None and since == 0, "loss-not-used", pending)
    ctx.check(applied == trained, "one-update-per-loss", (len(applied), len(trained)))
    # an iteration is one pass over one directory, in order, then a save
    dirs, this = [], []
    for p in passes_:
        if p == "saved":
            d = sorted({a for a, i in this})
            ctx.check(len(d) <= 1 and [i for a, i in this] == list(range(nb)), "every-batch-once", this)
            dirs += d
            this = []
        elif "2021" not in p[0]:
            this.append(p)
    ctx.check(not this, "saved-after-the-iteration", this)
    ctx.check(len(dirs) == (iters if nb else 0), "one-directory-per-iteration", dirs)
    for i in range(len(dirs)):
        ctx.check(len(set(dirs[i:i + 8])) == len(dirs[i:i + 8]), "directories-in-turn", dirs)
    return w


@harness("C30", variants=lambda tier: [(n,) for n in (NAMES[:1] if tier == "quick" else NAMES)], modules=TRAIN, torch=True, covers=("same", "wrapped"), bounds="resuming after any iteration 0..40")
def resumed_data(ctx, M, name):
    """a resumed run takes the directories in the same turn as an uninterrupted one"""
    def seen(start, n):
        w = World(ctx, M, lambda g: [g + (0,)], lambda path: [((path, 0), ("events", path, 0))])
        if start is not None:
            w.put(name, start, "weights 1000")
        w.S.train(name, n)
        return [l[1][0] for l in w.log if l[0] == "forward" and l[3]]

    whole = seen(None, 8)
    k = ctx.int("newest", 0, 40)
    got = seen(k, 2)
    ctx.check(len(whole) == 8 and len(got) == 2, "one-directory-per-iteration", got)
    for j, d in enumerate(got):
        ctx.check(d in whole, "directory", d)
        ctx.check((k + 1 + j) % 8 == whole.index(d), "directories-in-turn", (k, j, d))
    ctx.cover("same", k < 7)
    ctx.cover("wrapped", k > 20)


@harness("C30", variants=lambda tier: [(n,) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5))], modules=TRAIN, torch=True, reals=True, covers=("several",), bounds="up to three validation batches of two losses with any values")
def mean_loss(ctx, M, n):
    """the reported validation loss is the mean of the validation losses"""
    vals = {}
    w = World(ctx, M, lambda g: [g + (j,) for j in range(2)], lambda path: [((path, i), ("events", path, i)) for i in range(n)])
    w.value = lambda tag: vals.setdefault(tag, ctx.real("loss_%d_%d" % (tag[1], tag[2]), 0, 100))
    m = w.S.TransformerModel()
    d = w.S.DataLoader("data/processed/2021/", 1)
    r = w.S.estimate_loss(d, m, 1)
    ctx.check(len(vals) == 2 * n, "whole-validation-set", len(vals))
    total = 0
    for v in vals.values():
        total = total + v
    ctx.check(And(r * len(vals) - total < 1e-6, total - r * len(vals) < 1e-6), "mean", r)
    ctx.check(w.training, "back-to-training-mode")
    ctx.check(not w.kinds("step", "backward"), "validation-changes-weights")
    ctx.check(next(iter(d))[0][1] == 0, "validation-data-reset")
    ctx.cover("several", n > 1)
