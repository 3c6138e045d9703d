"""Driver: run one property's check, or replay a saved failure.

    run C01 [--tier quick|thorough] [--seed N] [--cases N]
    run C01 --replay FILE

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the harness
itself failed.
"""

import argparse
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import engine  # noqa: E402

sys.path.insert(0, engine.REPO_SRC)

SHARDS = 8
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def load(prop):
    return importlib.import_module("props." + prop.lower())


def shard_seed(seed, prop, shard):
    h = hashlib.blake2b(f"{seed}:{prop}:{shard}".encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def known_cases(prop):
    """`known: property=<id> case=<json> what=<text>` lines"""
    out = []
    if not os.path.exists(KNOWN_FILE):
        return out
    with open(KNOWN_FILE, encoding="utf-8") as f:
        for line in f:
            if not line.startswith(f"known: property={prop} case="):
                continue
            rest = line.split("case=", 1)[1]
            obj, end = json.JSONDecoder().raw_decode(rest)
            what = rest[end:].strip()
            out.append((engine.dec(obj), what.removeprefix("what=")))
    return out


def shard_fixed(mod, shard):
    fixed = list(getattr(mod, "FIXED", ()))
    return fixed[shard::SHARDS]


def run_shard(mod, prop, seed, shard, n, known, stop_at=None):
    if hasattr(mod, "setup"):
        mod.setup()
    kn = {engine.dumps(c): w for c, w in known}

    def is_known(case, msg):
        return kn.get(engine.dumps(case))

    res = engine.campaign(
        mod.gen,
        mod.check,
        n if stop_at is None else stop_at + 1,
        shard_seed(seed, prop, shard),
        fixed=shard_fixed(mod, shard),
        known=is_known if kn else None,
    )
    if stop_at is None and res["failures"]:
        f = res["failures"][0]
        f["shrunk"] = f["case"]
        f["shrunk_msg"] = f["msg"]
        if f["choices"] is not None and "hang" not in f["msg"]:
            _, c, m = engine.shrink(mod.gen, mod.check, f["choices"])
            if c is not None:
                f["shrunk"], f["shrunk_msg"] = c, m
    return res


def fork_shards(mod, prop, seed, total, known, confirm):
    """run the shards; a confirmed failure of one ends the others"""
    per = max(1, total // SHARDS)
    tmp = tempfile.mkdtemp(prefix="verif-")
    pids = {}
    results = []
    errors = []
    notes = []
    verdict = None
    try:
        for s in range(SHARDS):
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    res = run_shard(mod, prop, seed, s, per, known)
                    with open(os.path.join(tmp, f"{s}.pkl"), "wb") as f:
                        pickle.dump(res, f)
                except BaseException:
                    rc = 3
                    with open(os.path.join(tmp, f"{s}.err"), "w") as f:
                        traceback.print_exc(file=f)
                finally:
                    os._exit(rc)
            pids[pid] = s
        while pids:
            pid, st = os.wait()
            s = pids.pop(pid, None)
            if s is None:
                continue
            pkl = os.path.join(tmp, f"{s}.pkl")
            if st == 0 and os.path.exists(pkl):
                with open(pkl, "rb") as f:
                    res = pickle.load(f)
                results.append((s, res))
                for fail in res["failures"]:
                    verdict = verdict or confirm(s, per, fail, notes)
            elif verdict is None:
                err = os.path.join(tmp, f"{s}.err")
                txt = open(err).read() if os.path.exists(err) else f"status {st}"
                errors.append((s, txt))
            if verdict:
                for p in pids:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda x: x[0])
    return per, [r for _, r in results], errors, notes, verdict


def write_replay(prop, obj):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(obj, indent=1, sort_keys=True)
    name = f"{prop}-{hashlib.blake2b(body.encode(), digest_size=5).hexdigest()}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def fresh_replay(prop, path):
    r = subprocess.run(
        [sys.executable, "-B", os.path.abspath(__file__), prop, "--replay", path],
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    return r.returncode == 1


def replay(prop, path):
    mod = load(prop)
    with open(path) as f:
        obj = json.load(f)
    engine.arm()
    if "case" in obj:
        if hasattr(mod, "setup"):
            mod.setup()
        msg = engine.run_case(mod.check, engine.dec(obj["case"]), engine.Ctx())
    else:
        c = obj["campaign"]
        res = run_shard(
            mod, prop, c["seed"], c["shard"], c["n"], known_cases(prop), c["idx"]
        )
        msg = res["failures"][0]["msg"] if res["failures"] else None
    if msg is None:
        print("replay: the property holds for this case")
        return 0
    print("replay:", msg)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.prop
    if a.replay:
        return replay(prop, a.replay)
    t0 = time.time()
    mod = load(prop)
    total = a.cases or (mod.THOROUGH if a.tier == "thorough" else mod.QUICK)
    known = known_cases(prop)

    # listed findings are re-run, so that the line only appears while it fails
    if known:
        if hasattr(mod, "setup"):
            mod.setup()
        engine.arm()
        for case, what in known:
            if engine.run_case(mod.check, case, engine.Ctx()) is not None:
                print(f"KNOWN-FINDING: property={prop} {what}")

    def confirm(shard, per, f, notes):
        """a failure counts once it fails again in a fresh process"""
        for t in (
            {"property": prop, "message": f["shrunk_msg"], "case": engine.enc(f["shrunk"])},
            {"property": prop, "message": f["msg"], "case": engine.enc(f["case"])},
            {
                "property": prop,
                "message": f["msg"] + " (needs the history of the whole campaign)",
                "campaign": {"seed": a.seed, "shard": shard, "n": per, "idx": f["idx"]},
            },
        ):
            path = write_replay(prop, t)
            if fresh_replay(prop, path):
                return t["message"], path
            os.unlink(path)
        notes.append(f"shard {shard}: not reproducible: {f['msg']}")
        return None

    per, results, errors, notes, verdict = fork_shards(
        mod, prop, a.seed, total, known, confirm
    )

    labels = {}
    distinct = set()
    samples = []
    evals = lines = 0
    for res in results:
        evals += res["evals"]
        distinct |= res["distinct"]
        lines = max(lines, res["lines"])
        samples += res["samples"]
        for k, v in res["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples.sort(key=lambda s: len(json.dumps(s)))
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[2:10] or samples,
            "classes": dict(sorted(labels.items())),
            "shards": SHARDS,
            "cases_per_shard": per,
            "regression_cases": len(getattr(mod, "FIXED", ())),
            "source_lines_reached": lines,
            "coverage_corpus": sum(r["corpus"] for r in results),
            "new_literals_steering": [len(_gens().NEW_STRS), len(_gens().NEW_INTS)],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if verdict else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if verdict:
        print(verdict[0])
        print(f"VIOLATION property={prop} replay={verdict[1]}")
        return 1
    if errors or notes:
        for s, e in errors:
            print(f"harness error in shard {s}:\n{e}", file=sys.stderr)
        for n in notes:
            print(n, file=sys.stderr)
        return 2
    print(
        f"{prop} {a.tier}: held on {evals} cases "
        f"({len(distinct)} distinct non-trivial), {ev['wall_s']} s"
    )
    return 0


def _gens():
    import gens

    return gens


if __name__ == "__main__":
    sys.exit(main())
