"""Runner for generated-input checks.

A check module ``checks/cNN.py`` defines ``PROPERTY``, ``RULE`` and a list of
facets made with :func:`facet`. A facet is a Hypothesis strategy producing a
JSON-able case and a function ``check(case, rec)`` that runs the library on
the case and compares with the oracle, raising :class:`Violation` if they
disagree. Because cases are plain JSON, a shrunk failure can be replayed
without Hypothesis.
"""

import os

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")

import collections  # noqa: E402
import hashlib  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import multiprocessing  # noqa: E402
import pathlib  # noqa: E402
import signal  # noqa: E402
import sys  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
KNOWN = ROOT / "known_findings.txt"
CASE_SECONDS = float(os.environ.get("VERIF_CASE_SECONDS", "90"))


def setup_path():
    sys.dont_write_bytecode = True
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    if HYPOTHESIS not in sys.path:
        sys.path.append(HYPOTHESIS)


setup_path()

import hypothesis  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import errors as herrors  # noqa: E402

FACETS = []


class Violation(AssertionError):
    """The library disagrees with the oracle."""


class HarnessError(Exception):
    """The check itself is broken."""


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, shards):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


def facet(strategy, quick=400, thorough=None, shards=8, name=None):
    """Register a facet (decorator for its check function)."""

    def deco(fn):
        f = Facet(
            name or fn.__name__, strategy, fn, quick,
            thorough or quick * 20, shards,
        )
        FACETS.append(f)
        return fn

    return deco


class Recorder:
    """Collects what one case was like."""

    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def note(self, cond=True, label=None):
        """Mark the case as non-trivial if cond is true."""
        if cond:
            self.nontrivial = True
            if label:
                self.labels.add(label)

    def label(self, label, cond=True):
        if cond:
            self.labels.add(label)


# --- comparison helpers ------------------------------------------------------


def _brief(a):
    return np.array2string(
        np.asarray(a), precision=6, threshold=24, edgeitems=3
    ).replace("\n", " ")


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def close(actual, expected, tol=1e-9, what="result", nan=False):
    """Equal shape and values up to tol relative to the magnitude."""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    if actual.shape != expected.shape:
        fail("%s: shape %s, expected %s", what, actual.shape, expected.shape)
    if actual.dtype.kind not in "fiub":
        fail("%s: dtype %s", what, actual.dtype)
    if actual.size == 0:
        return
    if nan:
        mask = np.isnan(expected)
        if np.any(mask != np.isnan(actual)):
            fail("%s: NaN at %s, expected at %s", what,
                 _brief(np.argwhere(np.isnan(actual))),
                 _brief(np.argwhere(mask)))
        if mask.all():
            return
        actual, expected = actual[~mask], expected[~mask]
    scale = max(1.0, float(np.max(np.abs(expected))))
    with np.errstate(invalid="ignore"):
        err = np.abs(actual - expected)
    if not np.all(err <= tol * scale):
        i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
        fail("%s: got %s, expected %s (element %d: %r vs %r)", what,
             _brief(actual), _brief(expected), i,
             float(actual.ravel()[i]), float(expected.ravel()[i]))


def same_rotation(actual, expected, tol=1e-9, what="rotation", axis=-1):
    """Unit quaternions representing the same rotation (sign ignored)."""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    if actual.shape != expected.shape:
        fail("%s: shape %s, expected %s", what, actual.shape, expected.shape)
    if actual.dtype.kind != "f":
        fail("%s: dtype %s", what, actual.dtype)
    if actual.size == 0:
        return
    s = np.sum(actual * expected, axis=axis, keepdims=True)
    close(actual * np.where(s < 0, -1.0, 1.0), expected, tol, what)


def equal(actual, expected, what="result"):
    """Exactly equal arrays (timestamps, labels)."""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    if actual.shape != expected.shape or not np.all(actual == expected):
        fail("%s: got %s, expected %s", what, _brief(actual), _brief(expected))


def raises(fn, *types, what="call"):
    """Call must raise one of the exception types."""
    try:
        out = fn()
    except types or Exception as exc:  # noqa: B902
        return exc
    fail("%s: expected an error, got %s", what, str(out)[:200])


# --- running -----------------------------------------------------------------


def _lib_frames(tb):
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(str(REPO) + "/"):
            out.append(f"{fn}:{tb.tb_lineno}")
        tb = tb.tb_next
    return out


def _classify(exc):
    """Message if the exception means a violation, None otherwise."""
    if isinstance(exc, Violation):
        return str(exc)
    if isinstance(exc, (HarnessError, MemoryError, KeyboardInterrupt)):
        return None
    frames = _lib_frames(exc.__traceback__)
    desc = f"{type(exc).__name__}: {str(exc)[:300]}"
    if frames:
        return f"unexpected error on valid input: {desc} at {frames[-1]}"
    if isinstance(
        exc,
        (IndexError, KeyError, ValueError, TypeError, AttributeError,
         AssertionError, ZeroDivisionError),
    ):
        return f"result could not be interpreted: {desc}"
    return None


def _reset():
    import matplotlib

    import rigid_body_motion as rbm

    rbm.clear_registry()
    if "matplotlib.pyplot" in sys.modules:
        matplotlib.pyplot.close("all")


class Hang(BaseException):
    """A case does not come to an end."""


_case = dict(cpu=0.0, alarms=0)


def _hang(signum, frame):
    # a machine that is merely slow or suspended must not look like a hang
    _case["alarms"] += 1
    busy = time.process_time() - _case["cpu"] > CASE_SECONDS / 4
    if busy or _case["alarms"] > 4:
        raise Hang(f"does not finish within {CASE_SECONDS:g} s")


def _run_case(f, case, rec):
    _reset()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            # cases take milliseconds; whatever runs for this long won't stop
            signal.signal(signal.SIGALRM, _hang)
            _case.update(cpu=time.process_time(), alarms=0)
            signal.setitimer(
                signal.ITIMER_REAL, CASE_SECONDS, CASE_SECONDS / 2
            )
            try:
                f.check(case, rec)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0.0)


def _canon(case):
    return json.dumps(case, sort_keys=True)


def _run_shard(args):
    """Run one shard of a facet; returns a plain dict."""
    idx, shard, seed, count, budget = args
    f = FACETS[idx]
    out = dict(
        facet=f.name, shard=shard, evaluations=0, nontrivial=set(),
        labels=collections.Counter(), samples=[], failure=None, error=None,
        truncated=False, wall=0.0,
        hang=False,
    )
    history = []
    last = {}
    start = time.time()

    def body(case):
        if time.time() - start > budget:
            out["truncated"] = True
            return
        case = json.loads(json.dumps(case))
        rec = Recorder()
        failing = "case" in last
        if not failing:
            out["evaluations"] += 1
            history.append(case)
        try:
            _run_case(f, case, rec)
        except Hang as exc:
            # not shrunk, since that would take forever as well
            last["case"], last["msg"] = case, str(exc)
            last["tb"] = traceback.format_exc()[-3000:]
            raise
        except Exception as exc:  # noqa: B902
            msg = _classify(exc)
            if msg is None:
                raise
            last.setdefault("first", case)
            last.setdefault("first_msg", msg)
            last["case"], last["msg"] = case, msg
            last["tb"] = traceback.format_exc()[-3000:]
            raise Violation(msg) from None
        if not failing:
            for lab in rec.labels:
                out["labels"][lab] += 1
            if rec.nontrivial:
                h = hashlib.sha1(_canon(case).encode()).digest()[:10]
                if h not in out["nontrivial"]:
                    out["nontrivial"].add(h)
                    n = len(out["nontrivial"])
                    if n in (5, 20):
                        out["samples"].append(case)

    test = settings(
        max_examples=count, database=None, deadline=None, print_blob=False,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
    )(given(f.strategy)(body))
    test = hypothesis.seed(seed)(test)

    try:
        test()
    except Hang:
        out["hang"] = True
        out["failure"] = dict(case=last["case"], msg=last["msg"],
                              tb=last.get("tb"))
    except Violation:
        out["failure"] = dict(case=last["case"], msg=last["msg"],
                              tb=last.get("tb"))
    except (herrors.Flaky, herrors.FlakyFailure):
        if "case" in last:
            out["failure"] = dict(
                case=last["first"], prelude=history[:-1],
                msg=last["first_msg"] + " (depends on the preceding cases)",
                tb=last.get("tb"),
            )
        else:
            out["error"] = traceback.format_exc()
    except BaseException:  # noqa: B902
        if "case" in last and isinstance(
            sys.exc_info()[1], BaseExceptionGroup
        ):
            out["failure"] = dict(case=last["case"], msg=last["msg"],
                                  tb=last.get("tb"))
        else:
            out["error"] = traceback.format_exc()
    out["wall"] = time.time() - start
    return out


def read_known(prop):
    """Known findings of a property: id -> description."""
    found = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" ")
                found[key.removeprefix("id=")] = desc
    return found


def replay(module, path):
    data = json.loads(pathlib.Path(path).read_text())
    f = next(f for f in FACETS if f.name == data["facet"])
    for case in data.get("prelude", []):
        try:
            _run_case(f, case, Recorder())
        except Exception:  # noqa: B902
            pass
    try:
        _run_case(f, data["case"], Recorder())
    except (Exception, Hang) as exc:  # noqa: B902
        msg = str(exc) if isinstance(exc, Hang) else _classify(exc)
        if msg is None:
            raise
        print(f"replayed: {msg}")
        print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1
    print("replay passes")
    return 0


def run(module, tier, seed):
    prop = module.PROPERTY
    t0 = time.time()
    budget = 420 if tier == "quick" else 6000
    tasks = []
    only = os.environ.get("VERIF_FACET")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for i, f in enumerate(FACETS):
        if only and f.name != only:
            continue
        total = int((f.quick if tier == "quick" else f.thorough) * scale)
        shards = max(1, min(f.shards, total))
        for s in range(shards):
            count = total // shards + (1 if s < total % shards else 0)
            tasks.append(
                (i, s, (seed * 1000003 + i * 1009 + s) % 2**32, count, budget)
            )
    # interleave facets so that all of them get going
    tasks.sort(key=lambda t: (t[1], t[0]))
    nproc = min(8, os.cpu_count() or 1, len(tasks))
    results = []
    if nproc > 1:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=None) as pool:
            for res in pool.imap_unordered(_run_shard, tasks, chunksize=1):
                results.append(res)
                if res["hang"]:
                    break  # the other shards might be stuck, too
    else:
        results = [_run_shard(t) for t in tasks]
    results.sort(key=lambda r: (r["facet"], r["shard"]))

    evaluations = sum(r["evaluations"] for r in results)
    per_facet = {}
    distinct = 0
    samples = []
    for f in FACETS:
        rs = [r for r in results if r["facet"] == f.name]
        if not rs:
            continue
        uniq = set().union(*(r["nontrivial"] for r in rs))
        labels = sum((r["labels"] for r in rs), collections.Counter())
        distinct += len(uniq)
        per_facet[f.name] = dict(
            evaluations=sum(r["evaluations"] for r in rs),
            distinct_nontrivial=len(uniq),
            labels=dict(sorted(labels.items())),
            max_shard_s=round(max(r["wall"] for r in rs), 2),
            truncated=any(r["truncated"] for r in rs),
        )
        for r in rs[:1]:
            for c in r["samples"][:2]:
                if len(_canon(c)) < 4000:
                    samples.append({"facet": f.name, "case": c})
    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]

    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=distinct,
            rule=module.RULE, samples=samples or [{"none": True}],
            facets=per_facet,
        ),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        violations=len(failures), wall_s=round(time.time() - t0, 2),
    )
    ev = ROOT / "evidence" / f"{prop}.json"
    ev.parent.mkdir(exist_ok=True)
    ev.write_text(json.dumps(evidence, indent=1))

    if failures:
        (ROOT / "replays").mkdir(exist_ok=True)
        by = {}
        for r in failures:
            cur = by.get(r["facet"])
            size = len(_canon(r["failure"]["case"]))
            if cur is None or size < cur[0]:
                by[r["facet"]] = (size, r)
        for name, (_, r) in sorted(by.items()):
            path = ROOT / "replays" / f"{prop}-{name}.json"
            path.write_text(json.dumps(
                dict(property=prop, facet=name, seed=seed, **r["failure"]),
                indent=1,
            ))
            print(f"[{name}] {r['failure']['msg']}")
            print(f"    case: {_canon(r['failure']['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
    for r in errors[:3]:
        print(f"harness error in {r['facet']}:\n{r['error']}",
              file=sys.stderr)
    print(
        f"{prop} {tier} seed={seed}: {evaluations} cases, {distinct} "
        f"distinct non-trivial, {len(failures)} failing shards, "
        f"{len(errors)} errors, {time.time() - t0:.1f}s"
    )
    if failures:
        return 1
    if errors:
        return 2
    # known findings are replayed explicitly so that they are still reported
    known = read_known(prop)
    for key, fn in getattr(module, "FINDINGS", {}).items():
        _reset()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn()
        except Violation as exc:
            if key in known:
                print(f"KNOWN-FINDING: property={prop} {known[key]}")
            else:
                path = ROOT / "replays" / f"{prop}-{key}.json"
                path.parent.mkdir(exist_ok=True)
                path.write_text(json.dumps(
                    dict(property=prop, finding=key, msg=str(exc))))
                print(f"[{key}] {exc}")
                print(f"VIOLATION property={prop} replay={path}")
                return 1
    return 0


def main(argv):
    prop = argv[1]
    module = importlib.import_module(f"checks.{prop.lower()}")
    import rigid_body_motion

    if not rigid_body_motion.__file__.startswith(str(REPO) + "/"):
        raise SystemExit("rigid_body_motion is not imported from /repo")
    if len(argv) > 3 and argv[2] == "--replay":
        return replay(module, argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run(module, tier, seed)
