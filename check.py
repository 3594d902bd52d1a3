#!/usr/bin/env python3
"""Driver of the property checks.

  check.py ID [quick|thorough]   run one check (tier defaults to VERIF_TIER)
  check.py --replay FILE         run the case of a replay file again
  check.py --setup               build once, so that later builds are quick
  check.py --all [quick|thorough]  run every check, one after another

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check itself could not do its work.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
GO = "/usr/local/go/bin/go" if os.path.exists("/usr/local/go/bin/go") else "go"

RACE = {"C35"}  # properties whose worker is built with the race detector
MEASURED = {"C26", "C36", "C37"}  # what the rest of the machine does may disturb a measurement
SHARDS = {"quick": 4, "thorough": 8}
WORKER_TIMEOUT = {"quick": 600, "thorough": 6 * 3600}
GRACE = 20  # seconds the other shards get when one has found a failing case
FUZZ_SECONDS = int(os.environ.get("PBT_FUZZ_SECONDS", "60"))


class CheckError(Exception):
    """The check could not decide (exit 2)."""


def go_env():
    env = dict(os.environ)
    env.update(
        HOME=env.get("HOME") or "/root",
        GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
        GODEBUG="", GOGC="200", CGO_ENABLED="1",
        # report every race again, so that a case can be shrunk and replayed
        GORACE="halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0",
    )
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("PBT_PROP", "PBT_MODE", "PBT_CORPUS", "PBT_JOURNAL", "PBT_FIXED", "PBT_OUT", "PBT_HASHES"):
        env.pop(k, None)
    return env


def build(tmp, prop=None, fuzz=False):
    """Builds the worker against /repo's working tree."""
    out = os.path.join(tmp, "fuzzer" if fuzz else "worker")
    cmd = [GO, "test", "-c", "-mod=readonly", "-o", out]
    if fuzz:
        cmd.append("-fuzz=FuzzCase")
    if prop in RACE:
        cmd.append("-race")
    cmd.append("./props")
    p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("building against /repo failed:\n" + p.stdout[-6000:])
    return out


def shard_seed(seed, prop, shard):
    h = hashlib.sha256(f"{seed}/{prop}/{shard}".encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1 or 1


class Worker:
    """One worker process and what it reported."""

    def __init__(self, binary, tmp, name, timeout, failed=None, **env):
        self.out = os.path.join(tmp, name + ".json")
        self.hashes = os.path.join(tmp, name + ".hashes")
        for f in (self.out, self.hashes):
            if os.path.exists(f):
                os.remove(f)
        e = go_env()
        e.update(PBT_OUT=self.out, PBT_HASHES=self.hashes, GOMAXPROCS=env.pop("procs", "2"))
        e.update({k: str(v) for k, v in env.items()})
        log = os.path.join(tmp, name + ".log")
        with open(log, "wb") as f:
            p = subprocess.Popen([binary, "-test.run=^TestWorker$", "-test.timeout=0"], cwd=tmp, env=e,
                                 stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            end, self.rc = time.monotonic() + timeout, None
            while self.rc is None:
                left = end - time.monotonic()
                if failed and failed[0] is not None:  # another shard has a failing case
                    left = min(left, failed[0] + GRACE - time.monotonic())
                try:
                    self.rc = p.wait(max(0.0, min(left, 1.0)))
                except subprocess.TimeoutExpired:
                    if left <= 0:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        self.rc = "timeout"
            if failed and failed[0] is None and self.rc == 1:
                failed[0] = time.monotonic()
        with open(log, "rb") as f:
            self.log = f.read().decode("utf-8", "replace")
        self.result = None
        if self.rc in (0, 1, 3) and os.path.exists(self.out):
            with open(self.out) as f:
                self.result = json.load(f)

    def crashed(self):
        """A fatal error of the Go runtime inside the code under test: it
        cannot be recovered, so the worker could not report it."""
        if self.rc in (0, 1, 3, "timeout") or "worker:" in self.log:
            return False
        if re.search(r"out of memory|cannot allocate memory|newosproc|pthread_create", self.log):
            return False
        return bool(re.search(r"goroutine stack exceeds|fatal error: |unexpected signal|SIGSEGV", self.log))


def write_replay(prop, seed, tier, fail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{tier}-{seed}.json")
    more = {k: fail[k] for k in ("before", "shard") if fail.get(k)}
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": fail["kind"], "msg": fail["msg"], "from": fail.get("from", ""),
                   "case": fail["case"], **more, "replay_with": f"python3 {VERIF}/check.py --replay {path}"}, f, indent=1)
    return path


def replay_case(binary, tmp, prop, case, name="replay"):
    path = os.path.join(tmp, name + "-case.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case}, f)
    return Worker(binary, tmp, name, 600, PBT_PROP=prop, PBT_MODE="replay", PBT_CORPUS=path)


def failing(w):
    """The failure a worker showed, as a dict, or None."""
    if w.rc == 1 or w.rc == 3:
        return w.result["fail"]
    if w.crashed():
        first = re.search(r".*(goroutine stack exceeds|fatal error: |unexpected signal|SIGSEGV).*", w.log).group(0)
        return {"kind": "crash", "msg": "the process died: " + first.strip()}
    return None


def confirm(binary, tmp, prop, fail):
    """Runs a case again in a fresh process (many times: see the worker)."""
    w = replay_case(binary, tmp, prop, fail["case"], "confirm")
    if w.rc == 0:
        return False
    if failing(w) is None:
        raise CheckError(f"a failing case could not be run again (exit {w.rc}):\n{w.log[-3000:]}")
    return True


def run_sequence(binary, tmp, prop, cases, name="sequence"):
    """Runs cases one after another in one fresh process."""
    paths = []
    for i, c in enumerate(cases):
        paths.append(os.path.join(tmp, f"{name}-{i}.json"))
        with open(paths[-1], "w") as f:
            json.dump({"property": prop, "case": c}, f)
    return Worker(binary, tmp, name, 600, PBT_PROP=prop, PBT_MODE="sequence", PBT_CORPUS=":".join(paths))


def confirm_after(binary, tmp, prop, fail):
    """A case that holds in a fresh process may fail after others: something
    outlives the structures. Finds a short run of cases that fails."""
    case = fail.get("orig") or fail["case"]
    before, k = fail.get("before") or [], 1
    while before:
        w = run_sequence(binary, tmp, prop, before[-k:] + [case])
        if failing(w) is not None:
            before = before[-k:]
            break
        if k >= len(before):
            return False
        k = min(2 * k, len(before))
    else:
        return False
    end = time.monotonic() + 40
    size = len(before)
    while size >= 1:  # leave out what is not needed
        i = 0
        while i < len(before) and time.monotonic() < end:
            less = before[:i] + before[i + size:]
            w2 = run_sequence(binary, tmp, prop, less + [case])
            if failing(w2) is not None:
                before, w = less, w2
            else:
                i += size
        size //= 2
    f = failing(w)
    fail.update(before=before, case=f.get("case", case), msg=f["msg"])
    return True


def corpus(prop):
    d = os.path.join(VERIF, "corpus", prop)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def list_props(binary, tmp):
    w = Worker(binary, tmp, "list", 60, PBT_PROP="list", PBT_MODE="list")
    if w.rc != 0:
        raise CheckError("cannot list the properties:\n" + w.log[-2000:])
    return w.result["ids"]


def fuzz(tmp, prop, seconds):
    """Coverage-guided search: native Go fuzzing over the bit stream of the
    generators. Returns (executions, failing case or None)."""
    binary = build(tmp, prop, fuzz=True)
    cwd = os.path.join(tmp, "fuzzcwd")
    os.makedirs(cwd, exist_ok=True)
    found = os.path.join(tmp, "fuzzfail.json")
    e = go_env()
    e.update(PBT_PROP=prop, PBT_FUZZFAIL=found, PBT_TIER="thorough", PBT_OUT=os.path.join(tmp, "fuzz-out.json"))
    p = subprocess.run([binary, "-test.run=^$", "-test.fuzz=^FuzzCase$", f"-test.fuzztime={seconds}s", "-test.parallel=8",
                        "-test.fuzzcachedir=" + os.path.join(tmp, "fuzzcache"), "-test.fuzzminimizetime=5s"],
                       cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=seconds + 600)
    execs = [int(x) for x in re.findall(r"execs: (\d+)", p.stdout)]
    fail = None
    if os.path.exists(found):
        with open(found) as f:
            fail = json.load(f)
    elif p.returncode != 0:
        print(f"note: the fuzzing phase ended early (exit {p.returncode}): {p.stdout[-600:]}")
    return (execs[-1] if execs else 0), fail


def shard_env(prop, tier, seed, i, files):
    env = dict(PBT_PROP=prop, PBT_MODE="run", PBT_TIER=tier, PBT_SEED=shard_seed(seed, prop, i),
               PBT_SHARD=i, PBT_SHARDS=SHARDS[tier], PBT_FIXED=1)
    if i == 0:
        env.update(PBT_CORPUS=":".join(files))
    return env


def run(prop, tier, seed):
    t0 = time.time()
    shards = SHARDS[tier]
    with tempfile.TemporaryDirectory(prefix="verif-pbt-") as tmp:
        binary = build(tmp, prop)
        files = corpus(prop)

        first_failure = [None]

        def shard(i, **more):
            env = shard_env(prop, tier, seed, i, files)
            env.update(more)
            return Worker(binary, tmp, f"shard{i}", WORKER_TIMEOUT[tier], first_failure, **env)

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            workers = list(ex.map(shard, range(shards)))

        fail = None
        for rc in (1, 3):
            for i, w in enumerate(workers):
                if fail is None and w.rc == rc:
                    fail = dict(w.result["fail"], worker=i)
        if fail is None:
            for i, w in enumerate(workers):
                if w.rc == 0:
                    continue
                if w.crashed():
                    journal = os.path.join(tmp, f"journal{i}.json")
                    again = shard(i, PBT_JOURNAL=journal)
                    if not again.crashed() and again.rc != 1:
                        raise CheckError(f"shard {i} died once and not again:\n{w.log[-3000:]}")
                    if again.rc == 1:
                        fail = again.result["fail"]
                    else:
                        with open(journal) as f:
                            fail = dict(failing(again), case=json.load(f))
                        fail["from"] = f"shard {i}"
                else:
                    raise CheckError(f"shard {i} ended with {w.rc}:\n{w.log[-3000:]}")
                break
        execs = None
        if fail is None and tier == "thorough" and FUZZ_SECONDS > 0:
            execs, found = fuzz(tmp, prop, FUZZ_SECONDS)
            if found is not None:
                fail = {"kind": "case", "msg": found["msg"], "case": found["case"], "from": "coverage-guided search"}
                r = Worker(binary, tmp, "fuzzshrink", 600, PBT_PROP=prop, PBT_MODE="shrink", PBT_TIER="thorough",
                           PBT_CORPUS=os.path.join(tmp, "fuzzfail.json"))
                if r.rc == 1:
                    fail.update(msg=r.result["fail"]["msg"], case=r.result["fail"]["case"], orig=found["case"])
        confirmed = fail is not None and confirm(binary, tmp, prop, fail)
        if fail is not None and not confirmed and fail.get("orig"):
            fail["case"] = fail["orig"]
            confirmed = confirm(binary, tmp, prop, fail)
        if confirmed or fail is None:
            if fail:
                fail.pop("before", None)
        else:
            confirmed = confirm_after(binary, tmp, prop, fail)
            if not confirmed and "worker" in fail:  # after everything its process had run
                i = fail["worker"]
                again = Worker(binary, tmp, f"again{i}", WORKER_TIMEOUT[tier], **shard_env(prop, tier, seed, i, files))
                confirmed = failing(again) is not None
                fail.pop("before", None)
                if confirmed:
                    fail["shard"] = {"tier": tier, "seed": seed, "shard": i}
                elif prop in MEASURED and again.rc == 0:
                    print(f"note: a failure did not repeat, neither alone nor in a second run of the same cases: {fail['msg']}")
                    workers[i], fail = again, None

        labels, hashes, samples = {}, set(), []
        evals = nontriv = ops = longest = slowest = 0
        rule, assumptions = "", []
        for w in workers:
            r = w.result
            if not r:
                continue
            evals += r.get("evals", 0)
            nontriv += r.get("nontrivial_total", 0)
            ops += r.get("ops", 0)
            longest = max(longest, r.get("max_ops", 0))
            slowest = max(slowest, r.get("max_cpu", 0))
            for k, v in (r.get("labels") or {}).items():
                labels[k] = labels.get(k, 0) + v
            samples += (r.get("samples") or [])[:3]
            rule = rule or r.get("rule", "")
            assumptions = assumptions or (r.get("assumptions") or [])
            if os.path.exists(w.hashes):
                with open(w.hashes) as f:
                    hashes.update(f.read().split())

    coverage = {
        "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:8],
        "operations": ops, "longest_history": longest,
        "slowest_case_cpu_s": round(slowest, 2),
        "cases_with_event": dict(sorted(labels.items())),
        "regression_cases": len(files), "shards": shards,
    }
    if execs is not None:
        coverage["coverage_guided_executions"] = execs
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if fail and confirmed else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)

    if fail is not None:
        if not confirmed:
            raise CheckError(f"a failure did not repeat in a fresh process: {fail['msg']}\n{json.dumps(fail['case'])[:3000]}")
        replay = write_replay(prop, seed, tier, fail)
        print(f"{prop} broken ({fail.get('from', '')}): {fail['msg']}")
        print("minimal case: " + json.dumps(fail["case"])[:2000])
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if len(hashes) == 0:
        raise CheckError("no non-trivial case was generated")
    print(f"{prop} held: {evals} cases, {len(hashes)} distinct non-trivial, {ops} operations, {time.time() - t0:.1f} s ({tier}, seed {seed})")
    return 0


def main(argv):
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "--setup":
        with tempfile.TemporaryDirectory(prefix="verif-pbt-") as tmp:
            print("built; properties:", " ".join(list_props(build(tmp), tmp)))
            for prop in sorted(RACE):
                build(tmp, prop)
        return 0
    if argv[0] == "--replay":
        with open(argv[1]) as f:
            rep = json.load(f)
        with tempfile.TemporaryDirectory(prefix="verif-pbt-") as tmp:
            binary, prop = build(tmp, rep["property"]), rep["property"]
            if rep.get("shard"):
                t, sd, i = (rep["shard"][k] for k in ("tier", "seed", "shard"))
                w = Worker(binary, tmp, "replay", WORKER_TIMEOUT[t], **shard_env(prop, t, sd, i, corpus(prop)))
            elif rep.get("before"):
                w = run_sequence(binary, tmp, prop, rep["before"] + [rep["case"]])
            else:
                w = replay_case(binary, tmp, prop, rep["case"])
        fail = failing(w)
        if fail:
            print(fail["msg"])
            print(f"VIOLATION property={rep['property']} replay={os.path.abspath(argv[1])}")
            return 1
        if w.rc != 0:
            raise CheckError(f"replay ended with {w.rc}:\n{w.log[-3000:]}")
        print("the case holds")
        return 0
    if len(argv) > 1:
        tier = argv[1]
    if tier not in SHARDS:
        raise CheckError(f"unknown tier {tier}")
    if argv[0] == "--all":
        worst = 0
        with tempfile.TemporaryDirectory(prefix="verif-pbt-") as tmp:
            ids = list_props(build(tmp), tmp)
        for prop in ids:
            try:
                rc = run(prop, tier, seed)
            except CheckError as e:
                print(f"{prop} ERROR: {e}")
                rc = 2
            worst = max(worst, rc)
        return worst
    return run(argv[0], tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        print(f"check error: {e}", file=sys.stderr)
        sys.exit(2)
    except Exception as e:  # never exit 1 without a violation
        print(f"check error: {type(e).__name__}: {e}", file=sys.stderr)
        sys.exit(2)
