"""Runs the harnesses of one property: exhaustive path exploration on all cores,
validation of every path against a concrete run of the plain code, replay of
counterexamples in a fresh process, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import core, loader
from .core import Infeasible, Inconclusive, PathEnd, Unsupported, z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Harness:
    def __init__(self, fn, name, variants, modules, covers, bounds, assumes, validate, setup, max_branches, torch, reals):
        self.fn = fn
        self.reals = reals
        self.name = name
        self.variants = variants
        self.modules = modules
        self.covers = covers
        self.bounds = bounds
        self.assumes = assumes
        self.validate = validate
        self.setup = setup
        self.max_branches = max_branches
        self.torch = torch


REGISTRY = {}


def harness(prop, variants=lambda tier: [()], modules=(), covers=(), bounds="", assumes=(), validate=1, setup=None, max_branches=60000, torch=False, reals=False):
    """Register fn(ctx, M, *variant) as part of the check of a property."""

    def deco(fn):
        props = [prop] if isinstance(prop, str) else prop
        for p in props:
            REGISTRY.setdefault(p, []).append(
                Harness(fn, fn.__name__, variants, tuple(modules), tuple(covers), bounds, tuple(assumes), validate, setup, max_branches, torch, reals)
            )
        return fn

    return deco


# --------------------------------------------------------------- worker side
_W = {}


class Worker:
    def __init__(self, harnesses, tier, known):
        self.harnesses = harnesses
        self.tier = tier
        self.known = known
        self.solver = None
        self.cov = None
        self.tries = {}


def _setup_modules(harnesses):
    names = []
    for h in harnesses:
        for m in h.modules:
            if m not in names:
                names.append(m)
    ts = None
    if any(h.torch for h in harnesses):
        from . import torchshim

        ts = torchshim.SHIM
    plain = loader.load(names, False)
    sym = loader.load(names, True, ts)
    return plain, sym


def run_concrete(h, M, variant, inputs, tier):
    """-> (ConcContext, exception or None, infeasible flag)"""
    c = core.ConcContext(inputs, tier)
    core.set_ctx(None)
    M.activate()
    exc = None
    infeasible = False
    try:
        if h.setup:
            h.setup(M, False)
        h.fn(c, M, *variant)
    except Infeasible:
        infeasible = True
    except PathEnd:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # incl. SystemExit raised by the code under test
        exc = e
    finally:
        for f in c.cleanups:
            f()
    return c, exc, infeasible


def _norm_obs(v):
    import numpy as np
    from fractions import Fraction

    if isinstance(v, bool):
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return int(v) if v == v and abs(v) < 1e15 and v == int(v) else round(v, 4)
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else round(float(v), 4)
    if hasattr(v, "_sym_data"):
        v = v._sym_data()
    if hasattr(v, "tolist"):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [_norm_obs(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _norm_obs(x) for k, x in v.items()}
    return v


def _explore(args):
    """One task: explore from given prefixes for a time slice."""
    hi, vi, prefixes, slice_s, max_paths = args
    w = _W["w"]
    h = w.harnesses[hi]
    variant = w.variants[hi][vi]
    if w.solver is None or w.cur != (hi, vi):
        w.solver = core.IncSolver(w.timeout_ms, not h.reals)
        w.cur = (hi, vi)
    st = core.Stats()
    out = {
        "hi": hi,
        "vi": vi,
        "violations": [],
        "errors": [],
        "covers": set(),
        "samples": [],
        "left": [],
        "notes": {},
    }
    stack = list(prefixes)
    t0 = time.time()
    n = 0
    while stack:
        if n and (time.time() - t0 > slice_s or n >= max_paths):
            break
        prefix = stack.pop()
        n += 1
        c = core.SymContext(w.solver, prefix, st, w.tier, h.max_branches, w.known)
        c.cover_tries = w.tries.setdefault(hi, {})
        core.set_ctx(c)
        w.sym.activate()
        exc = None
        ok = True
        w.cov.on = True
        try:
            try:
                if h.setup:
                    h.setup(w.sym, True)
                h.fn(c, w.sym, *variant)
            finally:
                w.cov.on = False
                for f in c.cleanups:
                    f()
        except Infeasible:
            ok = False
        except PathEnd:
            pass
        except (Unsupported, Inconclusive) as e:
            out["errors"].append(_err(h, variant, e))
            ok = False
        except (KeyboardInterrupt, MemoryError):
            raise
        except (Exception, SystemExit) as e:
            exc = e
        if c.aborted is not None:
            out["errors"].append(_err(h, variant, c.aborted))
            ok = False
        stack.extend(c.pending)
        if not ok:
            st.infeasible += 1
            if out["errors"]:
                break
            continue
        try:
            c._need_model()
        except Infeasible:
            st.infeasible += 1
            continue
        except Inconclusive as e:
            out["errors"].append(_err(h, variant, e))
            break
        st.paths += 1
        out["covers"] |= c.covers
        for k, v in c.notes.items():
            out["notes"][k] = max(out["notes"].get(k, v), v) if isinstance(v, (int, float)) else v
        try:
            vs = c.finish()
        except Inconclusive as e:
            out["errors"].append(_err(h, variant, e))
            break
        if exc is not None:
            label = "exception:" + type(exc).__name__
            vs.insert(0, (label, _tb(exc), c.input_values(c.model)))
        for label, info, inputs in vs:
            core.set_ctx(None)
            cc, cexc, inf = run_concrete(h, w.plain, variant, inputs, w.tier)
            got = [x[0] for x in cc.failed]
            if cexc is not None:
                got.append("exception:" + type(cexc).__name__)
            v = {
                "harness": h.name,
                "hi": hi,
                "vi": vi,
                "variant": repr(variant),
                "label": label,
                "info": info,
                "inputs": inputs,
                "reproduced": got,
                "ok": label in got,
                "replay_exc": None if cexc is None else _tb(cexc),
            }
            if not v["ok"] and not inf:
                # the real code fails in another way on these inputs
                other = [g for g in got if g not in w.known]
                if other:
                    v.update(label=other[0], ok=True, info=repr(cc.failed[:1]) if cexc is None else _tb(cexc))
            out["violations"].append(v)
        if not vs:
            m = c.model
            inputs = c.input_values(m)
            if h.validate and (st.paths - 1) % h.validate == 0:
                want = [(k, _norm_obs(core.conc(v, m))) for k, v in c.obs]
                cc, cexc, inf = run_concrete(h, w.plain, variant, inputs, w.tier)
                st.replayed += 1
                got = [(k, _norm_obs(core.conc(v, None))) for k, v in cc.obs]
                bad = None
                if inf:
                    bad = "concrete run says the inputs are infeasible"
                elif cexc is not None:
                    bad = "concrete run raised " + _tb(cexc)
                elif [f for f in cc.failed if f[0] not in w.known]:
                    bad = "concrete run failed %r" % (cc.failed[:3],)
                elif got != want:
                    d = [(a, b) for a, b in zip(want, got) if a != b][:3]
                    bad = "observations differ: %r (lengths %d/%d)" % (d, len(want), len(got))
                f = [x for x in cc.failed if x[0] not in w.known]
                if not inf and (f or cexc is not None):
                    # the real code fails on the solver's inputs where the encoding did not
                    label = f[0][0] if f else "exception:" + type(cexc).__name__
                    out["violations"].append(
                        {"harness": h.name, "hi": hi, "vi": vi, "variant": repr(variant), "label": label, "info": repr(f[:1]) if f else _tb(cexc), "inputs": inputs,
                         "reproduced": [x[0] for x in f] or [label], "ok": True, "replay_exc": None if cexc is None else _tb(cexc)})
                    break
                if bad:
                    out["errors"].append("%s%r: encoding disagrees with the real code: %s inputs=%r" % (h.name, variant, bad, inputs))
                    break
            if len(out["samples"]) < 1:
                out["samples"].append({"harness": h.name, "variant": repr(variant), "inputs": inputs, "covers": sorted(c.covers)[:12]})
        if [v for v in out["violations"] if v["label"] not in w.known and v["ok"]]:
            break
        if len([v for v in out["violations"] if not v["ok"]]) > 5:
            break
    out["left"] = stack
    out["stats"] = st.dict()
    out["funcs"] = dict(w.cov.funcs)
    out["lines"] = set(w.cov.lines)
    w.cov.lines.clear()
    w.cov.funcs.clear()
    return out


def _tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = " <- ".join("%s:%d:%s" % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-4:]))
    return "%s: %s at %s" % (type(e).__name__, str(e)[:200], where)


def _err(h, variant, e):
    return "%s%r: %s" % (h.name, variant, _tb(e))


def _init(harnesses, tier, known, timeout_ms):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.environ["OMP_NUM_THREADS"] = "1"
    w = Worker(harnesses, tier, known)
    w.variants = [list(h.variants(tier)) for h in harnesses]
    w.timeout_ms = timeout_ms
    w.plain, w.sym = _MODS
    w.cur = None
    w.cov = loader.Coverage()
    if "torch" in sys.modules:
        sys.modules["torch"].set_num_threads(1)
    _W["w"] = w


_MODS = None


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for f in json.load(open(p))["findings"]:
            if f["property"] == prop and f.get("status") == "known":
                out[f["label"]] = f["what"]
    return out


def run_check(prop, tier, level="model_checking", assumptions=(), seed=None, jobs=8, deadline_s=840, only=None, verbose=False):
    """Returns exit code."""
    global _MODS
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    harnesses = [h for h in REGISTRY[prop] if only is None or h.name == only]
    known = known_findings(prop)
    # modules under test may write into the current directory when imported
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    cwd = os.getcwd()
    os.chdir(scratch)
    os.environ["VERIF_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    z3.set_param("smt.random_seed", seed % 1000)
    z3.set_param("sat.random_seed", seed % 1000)
    code = 2
    try:
        code = _run(prop, tier, level, assumptions, seed, jobs, deadline_s, harnesses, known, t0, verbose)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _run(prop, tier, level, assumptions, seed, jobs, deadline_s, harnesses, known, t0, verbose):
    global _MODS
    try:
        _MODS = _setup_modules(harnesses)
    except Exception as e:
        print("ERROR property=%s cannot load the code under test: %s" % (prop, _tb(e)))
        traceback.print_exc()
        return 2
    variants = [list(h.variants(tier)) for h in harnesses]
    total = core.Stats()
    violations, errors, samples = [], [], []
    covers = [set() for _ in harnesses]
    per_h = [core.Stats() for _ in harnesses]
    h_wall = [0.0 for _ in harnesses]
    funcs, lines, notes = {}, set(), {}
    from concurrent.futures import FIRST_COMPLETED, wait
    from concurrent.futures.process import BrokenProcessPool, ProcessPoolExecutor

    tasks = []
    nv = sum(len(v) for v in variants)
    for hi, vs in enumerate(variants):
        for vi in range(len(vs)):
            tasks.append((hi, vi, [[]]))
    stop = False
    deadline = t0 + deadline_s
    ex = ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=_init, initargs=(harnesses, tier, set(known), 60000))
    try:
        running = {}
        tasks.reverse()
        while tasks or running:
            while tasks and len(running) < jobs and not stop:
                hi, vi, pre = tasks.pop()
                many = len(tasks) + len(running) >= jobs
                f = ex.submit(_explore, (hi, vi, pre, 4.0 if many else 1.0, 400 if many else 40))
                running[f] = (hi, vi)
            if not running:
                break
            done, _ = wait(list(running), timeout=5, return_when=FIRST_COMPLETED)
            if time.time() > deadline:
                errors.append("time limit of %d s reached with work left: inconclusive" % deadline_s)
                break
            for f in done:
                hi, vi = running.pop(f)
                try:
                    r = f.result()
                except BrokenProcessPool:
                    errors.append("a worker process died")
                    stop = True
                    break
                except Exception as e:
                    errors.append("worker failed: " + _tb(e))
                    stop = True
                    break
                total.add(r["stats"])
                per_h[hi].add(r["stats"])
                covers[hi] |= r["covers"]
                violations += r["violations"]
                errors += r["errors"]
                if len([s for s in samples if s["harness"] == harnesses[hi].name]) < 2:
                    samples += r["samples"]
                funcs.update(r["funcs"])
                lines |= r["lines"]
                for k, v in r["notes"].items():
                    notes[k] = max(notes.get(k, v), v) if isinstance(v, (int, float)) else v
                left = r["left"]
                if left:
                    k = max(1, min(len(left), jobs - len(running) - len(tasks) + 1))
                    for i in range(k):
                        part = left[i::k]
                        if part:
                            tasks.append((hi, vi, part))
                if [v for v in violations if v["label"] not in known and v["ok"]] or errors:
                    stop = True
            if stop:
                tasks.clear()
                if any(v["ok"] and v["label"] not in known for v in violations):
                    break
    finally:
        for p in list(getattr(ex, "_processes", {}).values() or []) if (stop or errors) else []:
            try:
                p.terminate()
            except Exception:
                pass
        ex.shutdown(wait=not (stop or errors), cancel_futures=True)

    real = [v for v in violations if v["ok"] and v["label"] not in known]
    ghost = [v for v in violations if not v["ok"]]
    knownhit = {}
    for v in violations:
        if v["ok"] and v["label"] in known:
            knownhit.setdefault(v["label"], v)
    code = 0
    confirmed = []
    lines_out = []
    if real:
        for v in real[:6]:
            path = _write_replay(prop, tier, v, harnesses)
            ok = _replay_fresh(path)
            if ok:
                confirmed.append((v, path))
                break
            errors.append("counterexample did not reproduce in a fresh process: %r" % (v,))
        if confirmed:
            v, path = confirmed[0]
            lines_out.append("property %s violated: harness %s%s label=%s info=%s inputs=%s" % (prop, v["harness"], v["variant"], v["label"], v["info"], json.dumps(v["inputs"])))
            lines_out.append("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
    if code == 0:
        for v in ghost[:5]:
            errors.append(
                "counterexample does not reproduce on the real code (encoding error): %s%s %s info=%s got=%s inputs=%s"
                % (v["harness"], v["variant"], v["label"], v["info"], v["reproduced"], json.dumps(v["inputs"]))
            )
        if not errors:
            for hi, h in enumerate(harnesses):
                if not per_h[hi].paths:
                    errors.append("vacuous: harness %s completed no path" % h.name)
                miss = [c for c in h.covers if c not in covers[hi]]
                if miss:
                    errors.append("vacuous: harness %s never reached %s" % (h.name, miss))
                if not per_h[hi].checks:
                    errors.append("vacuous: harness %s asserted nothing" % h.name)
        if errors:
            code = 2
    if code == 0:
        for label, v in sorted(knownhit.items()):
            lines_out.append("KNOWN-FINDING: property=%s %s [%s; e.g. inputs %s]" % (prop, known[label], label, json.dumps(v["inputs"])[:300]))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "states": total.paths,
            "transitions": total.branches,
            "traces_validated_against_impl": total.replayed,
            "samples": samples[:8],
            "exhaustive": code == 0,
            "rule": "states = feasible symbolic paths completed (each stands for every input satisfying its path condition); transitions = symbolic branch decisions; a trace is a path's model run through the unpatched code with equal observations",
            "functions_encoded": sorted("%s:%s" % k for k in funcs),
            "lines_encoded": len(lines),
            "queries_discharged": total.queries,
            "queries_unsat": total.unsat,
            "queries_sat": total.sat,
            "queries_unknown": total.unknown,
            "solver_time_s": round(total.solver_time, 2),
            "assertions": total.checks,
            "infeasible_paths": total.infeasible,
            "forks": total.forks,
            "covers_reached": {h.name: sorted(covers[i])[:80] for i, h in enumerate(harnesses)},
            "harnesses": {
                h.name: {
                    "variants": len(variants[i]),
                    "paths": per_h[i].paths,
                    "queries": per_h[i].queries,
                    "solver_time_s": round(per_h[i].solver_time, 2),
                    "bounds": h.bounds(tier) if callable(h.bounds) else h.bounds,
                }
                for i, h in enumerate(harnesses)
            },
            "known_findings_seen": sorted(knownhit),
            "errors": errors[:5],
        },
        "assumptions": list(assumptions) + sorted({a for h in harnesses for a in h.assumes}),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    ev["coverage"].update({"note_" + k: v for k, v in notes.items()})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for e in errors[:8]:
        print("ERROR property=%s %s" % (prop, e[:1500]))
    for s in lines_out:
        print(s)
    print(
        "%s tier=%s exit=%d paths=%d branches=%d queries=%d (unsat %d) solver=%.1fs replayed=%d asserts=%d wall=%.1fs"
        % (prop, tier, code, total.paths, total.branches, total.queries, total.unsat, total.solver_time, total.replayed, total.checks, time.time() - t0)
    )
    if verbose:
        for i, h in enumerate(harnesses):
            print("  ", h.name, "variants", len(variants[i]), "paths", per_h[i].paths, "solver %.1f" % per_h[i].solver_time, sorted(covers[i]))
    sys.stdout.flush()
    return code


def _write_replay(prop, tier, v, harnesses):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    blob = {
        "property": prop,
        "tier": tier,
        "harness": v["harness"],
        "variant_index": v["vi"],
        "variant": v["variant"],
        "label": v["label"],
        "info": v["info"],
        "inputs": v["inputs"],
        "how": "%s %s/replay.py <this file>   (exit 1 = reproduces on the plain code of /repo)" % (PY, VERIF),
    }
    key = hashlib.sha1(json.dumps(blob, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, key))
    with open(path, "w") as f:
        json.dump(blob, f, indent=1, default=str)
    return path


def _replay_fresh(path):
    try:
        r = subprocess.run([PY, os.path.join(VERIF, "replay.py"), path], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


def replay_file(path):
    """Run one recorded counterexample on the plain modules.  1 = reproduces."""
    blob = json.load(open(path))
    hs = [h for h in REGISTRY[blob["property"]] if h.name == blob["harness"]]
    h = hs[0]
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    cwd = os.getcwd()
    path = os.path.abspath(path)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    try:
        M = loader.load(h.modules, False)
        variant = list(h.variants(blob["tier"]))[blob["variant_index"]]
        c, exc, inf = run_concrete(h, M, variant, blob["inputs"], blob["tier"])
        got = list(c.failed)
        if exc is not None:
            got.append(("exception:" + type(exc).__name__, _tb(exc)))
        print("inputs:", json.dumps(blob["inputs"]))
        print("expected:", blob["label"], blob["info"])
        print("observed:", got, "(infeasible)" if inf else "")
        return 1 if any(g[0] == blob["label"] for g in got) else 0
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
