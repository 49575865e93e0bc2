"""
Shared machinery of every check in /verif: deterministic generated-case search with Hypothesis, sharded over processes,
shrinking, replay files, known findings and the evidence file.

A check module (/verif/checks/cNN.py) defines

    CHECK = Check("C01", title, rule, subs=[Sub(...), ...])

where each Sub has a strategy that produces plain JSON data and a function `run(case, rec)` that exercises the code in
/repo and raises `Violation` when the oracle disagrees.  Everything a case needs is in its JSON value, so a shrunk
failure is replayed without Hypothesis:  run_check.py C01 --replay FILE.
"""

from __future__ import annotations

import base64
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SHRINK_LIMIT = float(os.environ.get("VERIF_SHRINK", "60"))


def _remember_checked_schemas() -> None:
    """
    `jsonschema.validate` checks the schema itself on every call, which is nine tenths of the time of a patch. The outcome
    depends on nothing but the schema, so each schema is checked once per process.
    """
    try:
        from jsonschema import validators
    except ImportError:
        return
    for cls in {validators.Draft202012Validator, validators.Draft7Validator}:
        original = cls.check_schema.__func__
        good: set[str] = set()

        def check_schema(kls, schema, *args, _original=original, _good=good, **kwargs):
            key = None if args or kwargs else repr(schema)
            if key is None or key not in _good:
                _original(kls, schema, *args, **kwargs)
                if key is not None:
                    _good.add(key)

        cls.check_schema = classmethod(check_schema)


_remember_checked_schemas()


class Violation(Exception):
    """The code under test broke the property on this case."""


class _Budget(BaseException):
    """Stops a Hypothesis run from inside a case."""


class CaseTimeout(Exception):
    """A single case ran for longer than the (generous) limit."""


def expect(cond: bool, msg: str, *details: Any) -> None:
    """Raises `Violation` if `cond` does not hold."""
    if not cond:
        raise Violation(msg + "".join(f"\n    {d}" for d in details))


def expect_eq(got: Any, want: Any, msg: str, *details: Any) -> None:
    """Type-strict equality (True != 1 != 1.0)."""
    if not same(got, want):
        raise Violation(f"{msg}\n    got:  {got!r}\n    want: {want!r}" + "".join(f"\n    {d}" for d in details))


def same(a: Any, b: Any) -> bool:
    """Deep equality that also compares the type of every element."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


@dataclass
class Sub:
    """One generated test of a property."""

    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any, "Rec"], None]
    quick: int
    thorough: int
    # Cases touch sockets, processes or the file system: a failure must be seen again before it is believed.
    confirm: bool = False
    # How many processes share the cases (quick tier / thorough tier).
    shards: int = 1
    shards_thorough: int = 4
    # Seconds a single case may take before it is taken to hang.
    case_limit: int = 60
    # An exhaustive list of cases instead of random ones (the `strategy` is then not used).
    enumerate: Callable[[str], Any] | None = None
    # Optional predicate for a class of inputs set aside as a known finding (returns the finding's id or None).
    excluded: Callable[[Any], Any] | None = None


@dataclass
class Check:
    """The generated tests that together decide a property."""

    id: str
    rule: str
    subs: list[Sub]
    level: str = "exploration"
    assumptions: list[str] = field(default_factory=list)


class Rec:
    """Per-worker statistics. Cases call `label` and `nontrivial`."""

    def __init__(self) -> None:
        self.evaluations = 0
        self.excluded: dict[str, int] = {}
        self.labels: dict[str, int] = {}
        self.hashes: set[str] = set()
        self.samples: list[Any] = []
        self._nontrivial = False
        self.replaying = False

    def label(self, name: str, n: int = 1) -> None:
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond: bool = True) -> None:
        if cond:
            self._nontrivial = True

    def _begin(self) -> None:
        self._nontrivial = False
        self.evaluations += 1

    def _end(self, case: Any) -> None:
        if not self._nontrivial:
            return
        blob = dump_case(case)
        h = hashlib.blake2b(blob.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
        if h not in self.hashes:
            self.hashes.add(h)
            if len(self.samples) < 3 or (len(self.samples) < 6 and len(self.hashes) % 97 == 0):
                if len(blob) < 6000:
                    self.samples.append(json.loads(blob))


def _default(o: Any) -> Any:
    if isinstance(o, bytes):
        return {"__b64__": base64.b64encode(o).decode()}
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))


def dump_case(case: Any) -> str:
    """JSON form of a case."""
    return json.dumps(case, default=_default)


def load_case(blob: str) -> Any:
    """Inverse of `dump_case`."""

    def hook(d: dict[str, Any]) -> Any:
        if set(d) == {"__b64__"}:
            return base64.b64decode(d["__b64__"])
        return d

    return json.loads(blob, object_hook=hook)


def _alarm(_sig: int, _frm: Any) -> None:
    raise CaseTimeout()


def run_case(sub: Sub, case: Any, rec: Rec) -> None:
    """Runs one case under the watchdog. Raises `Violation` if the property is broken."""
    # Cases see a private copy, so code under test that mutates its arguments cannot change what is replayed.
    case = load_case(dump_case(case))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.case_limit)
    try:
        sub.run(case, rec)
    except CaseTimeout:
        raise Violation(f"no result within {sub.case_limit} s (does not terminate)") from None
    except (Violation, _Budget):
        raise
    except Exception as e:  # an exception nobody expected
        where = traceback.extract_tb(e.__traceback__)
        if any(str(REPO) in fr.filename for fr in where):
            last = [fr for fr in where if str(REPO) in fr.filename][-1]
            raise Violation(
                f"unexpected {type(e).__name__}: {str(e)[:300]} (raised under {last.filename}:{last.lineno}"
                f" in {last.name})"
            ) from e
        # What the code returned can't even be compared.
        raise Violation(f"unusable result: {type(e).__name__}: {str(e)[:300]} at {where[-1].filename}:{where[-1].lineno}") from e
    finally:
        signal.alarm(0)


def _fails(sub: Sub, case: Any) -> str | None:
    """Message of the violation this case causes, or None."""
    try:
        run_case(sub, case, Rec())
    except Violation as v:
        return str(v)
    return None


def _worker(check: Check, si: int, shard: int, nshards: int, tier: str, seed: int, budget: float, out: str) -> None:
    """Runs one shard of one sub-test and writes its result to `out`."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    sub = check.subs[si]
    rec = Rec()
    t0 = time.monotonic()
    res: dict[str, Any] = {"sub": sub.name, "shard": shard, "violation": None, "error": None, "skipped": 0}
    best: dict[str, Any] = {"case": None, "msg": None, "size": 1 << 60, "t": None, "n": 0}

    def one(case: Any) -> None:
        now = time.monotonic()
        if best["t"] is None and now - t0 > budget:
            res["skipped"] += 1
            raise _Budget()
        if best["t"] is not None and now - best["t"] > SHRINK_LIMIT:
            raise _Budget()
        if sub.excluded is not None:
            why = sub.excluded(case)
            if why:
                rec.excluded[why] = rec.excluded.get(why, 0) + 1
                return
        rec._begin()
        try:
            run_case(sub, case, rec)
        except Violation as v:
            if sub.confirm:
                again = [_fails(sub, case) for _ in range(2)]
                if not any(again):
                    rec.label("unconfirmed failure ignored")
                    return
            best["n"] += 1
            blob = dump_case(case)
            if best["t"] is None:
                best["t"] = now
            if len(blob) < best["size"]:
                best.update(case=blob, msg=str(v), size=len(blob))
            raise
        rec._end(case)

    try:
        if sub.enumerate is not None:
            for i, case in enumerate(sub.enumerate(tier)):
                if i % nshards != shard:
                    continue
                try:
                    one(case)
                except Violation:
                    pass
        else:
            total = sub.quick if tier == "quick" else sub.thorough
            n = max(1, total // nshards)
            sseed = int.from_bytes(
                hashlib.blake2b(f"{seed}/{check.id}/{sub.name}/{shard}".encode(), digest_size=6).digest(), "big"
            )

            @hypothesis.seed(sseed)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                verbosity=Verbosity.quiet,
                print_blob=False,
                report_multiple_bugs=False,
            )
            @given(sub.strategy())
            def test(case: Any) -> None:
                one(case)

            try:
                test()
            except (Violation, _Budget):
                pass
            except BaseException as e:  # Flaky and friends: a violation was seen, or this is an error of the check
                if best["case"] is None:
                    raise e
    except _Budget:
        pass
    except BaseException:  # pylint: disable=broad-exception-caught
        res["error"] = traceback.format_exc()
    if best["case"] is not None:
        res["violation"] = {"sub": sub.name, "case": best["case"], "message": best["msg"], "failures": best["n"]}
    res.update(
        evaluations=rec.evaluations,
        excluded=rec.excluded,
        labels=rec.labels,
        hashes=sorted(rec.hashes),
        samples=rec.samples,
        wall=time.monotonic() - t0,
    )
    with open(out, "w", encoding="utf-8") as f:
        json.dump(res, f)


def _findings(check_id: str) -> list[dict[str, Any]]:
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    data = json.loads(path.read_text(encoding="utf-8"))
    return [e for e in data["findings"] if e["property"] == check_id and e["status"] == "open"]


def finding_case(entry: dict[str, Any]) -> Any:
    return load_case(json.dumps(entry["case"]))


def main_check(check: Check, argv: list[str]) -> int:
    """Entry point: runs a whole check or replays one case."""
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--replay" in argv:
        return _replay(check, argv[argv.index("--replay") + 1])

    only = argv[argv.index("--sub") + 1] if "--sub" in argv else None
    t0 = time.monotonic()
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "3000"))
    jobs = []
    for si, sub in enumerate(check.subs):
        if only and sub.name != only:
            continue
        n = sub.shards if tier == "quick" else max(sub.shards, sub.shards_thorough)
        for sh in range(n):
            jobs.append((si, sh, n))

    # Findings on file first: each is re-run and reported, and never fails the check.
    known: list[str] = []
    scratch = tempfile.mkdtemp(prefix="verif_check_")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    old_cwd = os.getcwd()
    os.chdir(scratch)
    try:
        for entry in _findings(check.id):
            sub = next((s for s in check.subs if s.name == entry["sub"]), None)
            if sub is None:
                raise RuntimeError(f"known finding names an unknown sub-test: {entry}")
            msg = _fails(sub, finding_case(entry))
            if msg is not None:
                known.append(entry["id"])
                print(f"KNOWN-FINDING: property={check.id} {entry['id']}: {entry['what']}", flush=True)

        ctx = mp.get_context("fork")
        ncpu = max(1, min(8, int(os.environ.get("VERIF_NCPU", os.cpu_count() or 1))))
        running: list[tuple[Any, str, Any]] = []
        results: list[dict[str, Any]] = []
        pending = list(jobs)
        k = 0
        while pending or running:
            while pending and len(running) < ncpu:
                job = pending.pop(0)
                out = os.path.join(scratch, f"r{k}.json")
                k += 1
                p = ctx.Process(
                    target=_worker, args=(check, job[0], job[1], job[2], tier, seed, budget, out), daemon=False
                )
                p.start()
                running.append((p, out, job))
            time.sleep(0.02)
            for item in list(running):
                p, out, job = item
                if p.is_alive():
                    continue
                p.join()
                running.remove(item)
                if os.path.exists(out):
                    with open(out, encoding="utf-8") as f:
                        results.append(json.load(f))
                    if results[-1].get("violation") and os.environ.get("VERIF_FIRST"):
                        # Mutation testing (tools/mutate.py) only asks if anything is found.
                        for q, _, _ in running:
                            q.kill()
                        pending, running = [], []
                        break
                else:
                    results.append(
                        {
                            "sub": check.subs[job[0]].name,
                            "error": f"worker ended with {p.exitcode} and no result",
                            "violation": None,
                            "evaluations": 0,
                            "excluded": {},
                            "labels": {},
                            "hashes": [],
                            "samples": [],
                            "skipped": 0,
                        }
                    )
    finally:
        os.chdir(old_cwd)
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)

    return _report(check, tier, seed, results, known, time.monotonic() - t0)


def _report(check: Check, tier: str, seed: int, results: list[dict[str, Any]], known: list[str], wall: float) -> int:
    hashes: set[str] = set()
    per_sub: dict[str, dict[str, Any]] = {}
    samples: list[Any] = []
    for r in results:
        ps = per_sub.setdefault(
            r["sub"], {"evaluations": 0, "nontrivial": set(), "labels": {}, "set_aside": {}, "skipped_budget": 0}
        )
        ps["evaluations"] += r["evaluations"]
        ps["skipped_budget"] += r["skipped"]
        ps["nontrivial"] |= set(r["hashes"])
        hashes |= {r["sub"] + h for h in r["hashes"]}
        for key, dst in (("labels", "labels"), ("excluded", "set_aside")):
            for k, v in r[key].items():
                ps[dst][k] = ps[dst].get(k, 0) + v
        if len([s for s in samples if s["sub"] == r["sub"]]) < 2:
            for s in r["samples"][:2]:
                samples.append({"sub": r["sub"], "case": s})
    violations = [r["violation"] for r in results if r.get("violation")]
    errors = [r["error"] for r in results if r.get("error")]
    evidence = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per_sub.values()),
            "distinct_nontrivial": len(hashes),
            "rule": check.rule,
            "samples": samples,
            "per_subtest": {
                k: {
                    "evaluations": p["evaluations"],
                    "distinct_nontrivial": len(p["nontrivial"]),
                    "labels": dict(sorted(p["labels"].items())),
                    "set_aside_as_known_finding": p["set_aside"],
                    "stopped_by_time_budget": p["skipped_budget"],
                }
                for k, p in per_sub.items()
            },
            "known_findings_reproduced": known,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    ev_dir = Path(os.environ.get("VERIF_EVIDENCE_DIR", VERIF / "evidence"))
    ev_dir.mkdir(exist_ok=True)
    (ev_dir / f"{check.id}.json").write_text(json.dumps(evidence, indent=1), encoding="utf-8")

    for k, p in per_sub.items():
        print(
            f"{check.id} {k}: {p['evaluations']} cases, {len(p['nontrivial'])} distinct non-trivial"
            + (f", set aside {p['set_aside']}" if p["set_aside"] else "")
            + (" [time budget reached]" if p["skipped_budget"] else "")
        )
    if violations:
        violations.sort(key=lambda v: len(v["case"]))
        seen: set[str] = set()
        for v in violations:
            if v["sub"] in seen:
                continue
            seen.add(v["sub"])
            name = f"{check.id}-{v['sub']}-{hashlib.blake2b(v['case'].encode('utf-8', 'replace'), digest_size=4).hexdigest()}.json"
            path = ev_dir / "replay" / name
            path.parent.mkdir(exist_ok=True)
            path.write_text(
                json.dumps(
                    {"property": check.id, "sub": v["sub"], "case": json.loads(v["case"]), "message": v["message"]},
                    indent=1,
                ),
                encoding="utf-8",
            )
            print(f"--- {v['sub']}: {v['message'][:3000]}")
            print(f"VIOLATION property={check.id} replay={path}", flush=True)
        for e in errors:
            print(e, file=sys.stderr)
        return 1
    if errors:
        for e in errors:
            print(f"CHECK ERROR\n{e}", file=sys.stderr)
        return 2
    print(f"{check.id}: held on everything explored ({wall:.1f} s)")
    return 0


def _replay(check: Check, path: str) -> int:
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    sub = next(s for s in check.subs if s.name == data["sub"])
    case = load_case(json.dumps(data["case"]))
    with tempfile.TemporaryDirectory(prefix="verif_replay_") as scratch:
        tempfile.tempdir = scratch
        os.environ["TMPDIR"] = scratch
        msg = _fails(sub, case)
        tempfile.tempdir = None
    if msg is None:
        print(f"{check.id} {sub.name}: the replayed case holds")
        return 0
    print(msg)
    print(f"VIOLATION property={check.id} replay={path}")
    return 1
