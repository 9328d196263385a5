"""Exploration driver shared by all checks.

A property module defines

    ID         property id
    LEVEL      evidence level
    shards(tier) -> list of JSON-able shard descriptors; their union is the
                    bounded space, each shard being explored completely
    run(shard, ctx)  explores one shard on the real code
    RULE, ASSUMPTIONS  texts for the evidence file

Shards are explored by forked worker processes, so that an abort, a failing
assertion or a hang inside the code under test becomes a reported violation of
the shard being explored rather than an error of the check.
"""

import json
import multiprocessing as mp
import os
import pathlib
import random
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait

ROOT = pathlib.Path(__file__).resolve().parent.parent
MAX_REPORT = 5


class Violation(Exception):
    pass


class Ctx:
    """Counters and reporting for one shard."""

    def __init__(self, note):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self.samples = []
        self.extra = {}
        self._note = note

    def note(self, what):
        """Records what is being explored, for crash and hang reports."""
        self._note(what)

    def count(self, key, num=1):
        self.extra[key] = self.extra.get(key, 0) + num

    def sample(self, what):
        if len(self.samples) < 1:
            self.samples.append(what)

    def fail(self, case, message):
        if len(self.fails) < MAX_REPORT:
            self.fails.append({"case": _json(case), "message": str(message)})
        if len(self.fails) >= MAX_REPORT:
            raise Violation

    def check(self, cond, case, message):
        if not cond:
            self.fail(case() if callable(case) else case, message)

    def equal(self, got, want, case, what):
        if got != want:
            self.fail(
                case() if callable(case) else case,
                f"{what}: got {got!r}, want {want!r}",
            )


def _json(obj):
    try:
        json.dumps(obj)
        return obj
    except TypeError:
        return repr(obj)


def _worker(module, shards, conn, path):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)

    def note(what):
        if callable(what):
            what = what()
        text = what if isinstance(what, str) else repr(what)
        os.pwrite(fd, text[:4000].encode().ljust(4096, b" "), 0)

    # The code under test's output is not part of any verdict.
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    errfd = os.open(path + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(errfd, 2)

    while True:
        idx = conn.recv()
        if idx is None:
            break

        ctx = Ctx(note)
        note("")
        try:
            module.run(shards[idx], ctx)
        except Violation:
            pass
        except BaseException:
            ctx.fails.append(
                {
                    "case": "exception while exploring this shard",
                    "message": traceback.format_exc(),
                }
            )
        conn.send(
            (
                idx,
                ctx.states,
                ctx.transitions,
                ctx.traces,
                ctx.fails,
                ctx.samples,
                ctx.extra,
            )
        )


class Worker:
    def __init__(self, module, shards, scratch, num):
        self.args = (module, shards)
        self.path = str(scratch / f"w{num}")
        self.start()

    def start(self):
        self.conn, child = mp.Pipe()
        self.proc = mp.Process(
            target=_worker, args=(*self.args, child, self.path), daemon=True
        )
        self.proc.start()
        child.close()
        self.idx = None

    def give(self, idx):
        self.idx = idx
        self.since = time.monotonic()
        self.conn.send(idx)

    def noted(self):
        try:
            text = pathlib.Path(self.path).read_text().strip()
            err = pathlib.Path(self.path + ".err").read_text()[-1500:].strip()
            return text, err
        except OSError:
            return "", ""


def explore(module, tier, seed, budget, jobs, hang, only=None):
    shards = module.shards(tier)
    order = list(range(len(shards)))
    if only is not None:
        order = [only]
    # The seed only permutes the order in which shards are explored.
    random.Random(seed).shuffle(order)
    if getattr(module, "BIG_FIRST", None):
        order.sort(key=lambda idx: -module.BIG_FIRST(shards[idx]))

    import tempfile, shutil

    scratch = pathlib.Path(tempfile.mkdtemp(prefix="verif-mc-"))
    begin = time.monotonic()
    total = {"states": 0, "transitions": 0, "traces": 0}
    fails, samples, extra = [], [], {}
    done = 0
    pending = list(reversed(order))
    complete = True
    try:
        num = max(1, min(jobs, len(order)))
        workers = [Worker(module, shards, scratch, i) for i in range(num)]
        for worker in workers:
            if pending:
                worker.give(pending.pop())

        while any(w.idx is not None for w in workers):
            ready = wait(
                [w.conn for w in workers if w.idx is not None], timeout=2
            )
            now = time.monotonic()
            stop = len(fails) >= MAX_REPORT
            for worker in workers:
                if worker.idx is None:
                    continue

                crashed = None
                if worker.conn in ready:
                    try:
                        res = worker.conn.recv()
                    except (EOFError, ConnectionError):
                        worker.proc.join()
                        crashed = f"process died ({worker.proc.exitcode})"
                    else:
                        idx, st, tr, tc, fs, sm, ex = res
                        done += 1
                        total["states"] += st
                        total["transitions"] += tr
                        total["traces"] += tc
                        for key, val in ex.items():
                            extra[key] = extra.get(key, 0) + val
                        samples.extend(sm)
                        fails.extend({"shard": idx, **f} for f in fs)
                        worker.idx = None
                elif now - worker.since > hang:
                    crashed = f"no answer within {hang} s"
                    worker.proc.kill()
                    worker.proc.join()

                if crashed:
                    text, err = worker.noted()
                    fails.append(
                        {
                            "shard": worker.idx,
                            "case": text,
                            "message": f"{crashed}; stderr: {err}",
                        }
                    )
                    worker.start()

                if worker.idx is None and pending and not stop:
                    if now - begin < budget:
                        worker.give(pending.pop())
                    else:
                        complete = False

            if stop:
                pending.clear()
                complete = False

        if pending:
            complete = False
        for worker in workers:
            try:
                worker.conn.send(None)
            except OSError:
                pass
            worker.proc.join(5)
            if worker.proc.is_alive():
                worker.proc.kill()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    return {
        "shards": shards,
        "explored": done,
        "complete": complete and not fails,
        "fails": fails,
        "samples": samples,
        "extra": extra,
        "wall": time.monotonic() - begin,
        **total,
    }


def load_known():
    path = ROOT / "known-findings.json"
    return json.loads(path.read_text()) if path.exists() else {"known": []}


def brief_samples(samples):
    """Three explored cases; large ones abridged to keep the file small."""

    def brief(obj):
        if isinstance(obj, dict):
            return {str(k): brief(v) for k, v in obj.items()}
        if isinstance(obj, (list, tuple)):
            rest = [f"... {len(obj) - 12} more"] if len(obj) > 16 else []
            return [brief(v) for v in (obj[:12] if rest else obj)] + rest
        return obj

    samples = sorted(samples, key=lambda x: len(json.dumps(x, default=str)))
    return [brief(x) for x in samples[:3]] or ["(none)"]


def report(module, tier, seed, res):
    prop = module.ID
    known = [k for k in load_known()["known"] if k["property"] == prop]
    fresh, listed = [], {}
    for fail in res["fails"]:
        text = json.dumps(fail["case"]) + fail["message"]
        hit = next((k for k in known if k["match"] in text), None)
        if hit:
            listed[hit["match"]] = hit
        else:
            fresh.append(fail)

    coverage = {
        "states": res["states"],
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["traces"],
        "samples": brief_samples(res["samples"]),
        "exhaustive": bool(res["complete"]),
        "shards_explored": res["explored"],
        "shards_total": len(res["shards"]),
        "rule": module.RULE,
        **{f"n_{k}": v for k, v in sorted(res["extra"].items())},
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "model_checking"),
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(res["wall"], 3),
        "violations": len(fresh),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    path = ROOT / "evidence" / f"{prop}.json"
    path.write_text(json.dumps(evidence, indent=1) + "\n")

    print(
        f"{prop} [{tier}]: {res['explored']}/{len(res['shards'])} shards, "
        f"{res['states']} states, {res['transitions']} transitions, "
        f"{res['traces']} traces, {res['wall']:.1f} s"
    )
    for hit in listed.values():
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    if not fresh:
        return 0

    (ROOT / "replay").mkdir(exist_ok=True)
    for num, fail in enumerate(fresh[:MAX_REPORT]):
        path = ROOT / "replay" / f"{prop}-{num}.json"
        shard = res["shards"][fail["shard"]]
        path.write_text(
            json.dumps(
                {"property": prop, "tier": tier, **fail, "descriptor": shard},
                indent=1,
                default=repr,
            )
        )
        print(f"{fail['message'][:1500]}\n  at {str(fail['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return 1
