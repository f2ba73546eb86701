#!/usr/bin/env python3
"""Runs the check of one property.

  check.py PROPERTY [quick|thorough]     the check (exit 0 held, 1 violated, other: error of the check)
  check.py --replay FILE                 judges one saved case
  check.py --setup                       builds the harness once (warms the build cache)

The harness (Go, /verif/harness) is rebuilt from /repo's working tree on every run. Shards of generated
cases run in parallel processes; every case is a pure function of VERIF_SEED and the shard number.
"""
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
PROGRAMS = {"C20"}  # needs the daemon and the client
RACE = {"C15"}  # judged by a binary built with the race detector
LEVEL = {"C16": "fault_enumeration", "C17": "fault_enumeration"}
EXIT_HANG, EXIT_RACE = 42, 66
MEMORY = 6 << 30
DEADLINE = {"quick": 420, "thorough": 5400}  # no new case is started after it (seconds)


def env(**kw):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="1",
             GORACE="halt_on_error=1 exitcode=%d" % EXIT_RACE)
    e.setdefault("HOME", "/root")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def build(race=False):
    os.makedirs(BUILD, exist_ok=True)
    # a name of its own for every run: checks may run at the same time
    fd, out = tempfile.mkstemp(prefix="harness-race-" if race else "harness-", dir=BUILD)
    os.close(fd)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        os.unlink(out)
        print("ERROR: the harness does not build against /repo:\n" + p.stdout)
        sys.exit(3)
    return out


def programs(tmp):
    """builds the daemon and the command-line client of the tree the harness is built against"""
    repo = [l.split("=>")[1].strip() for l in open(os.path.join(HERE, "harness", "go.mod")) if "sourcenetwork/zanzi =>" in l][0]
    out = os.path.join(tmp, "bin")
    os.makedirs(out)
    p = subprocess.run(["go", "build", "-buildvcs=false", "-o", out + "/", "./cmd/zanzid", "./cmd/zanzi-cli"], cwd=repo, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("ERROR: the programs do not build:\n" + p.stdout)
        sys.exit(3)
    for f in os.listdir(out):
        os.chmod(os.path.join(out, f), 0o755)
    os.chmod(out, 0o755)
    os.chmod(tmp, 0o755)  # they run as an unprivileged user
    os.environ["VERIF_BIN"] = out


def info(binary):
    p = subprocess.run([binary, "-test.run", "^TestInfo$", "-test.v"], env=env(), stdout=subprocess.PIPE, text=True)
    for line in p.stdout.splitlines():
        if line.startswith("INFO "):
            return json.loads(line[5:])
    print("ERROR: no INFO from the harness\n" + p.stdout)
    sys.exit(3)


def limits(prop):
    """bounds the memory of a process of the harness: normal runs need a few hundred MB (the race detector maps terabytes)"""
    def f():
        for sig in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT):
            signal.signal(sig, signal.SIG_DFL)  # a shell's background jobs ignore some, and their children would
        if prop not in RACE:
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    return f


def start(binary, prop, d, seed, n, tier, corpus, procs):
    args = [binary, "-test.run", "^TestProp$", "-test.timeout", "3h", "-rapid.seed", str(seed), "-rapid.checks", str(max(1, n)),
            "-rapid.nofailfile", "-rapid.shrinktime", "20s" if tier == "quick" else "60s"]
    e = env(VERIF_PROP=prop, VERIF_DIR=d, VERIF_CORPUS=corpus, GOMAXPROCS=procs, VERIF_DEADLINE=DEADLINE[tier], VERIF_TIER=tier, TMPDIR=d)
    log = open(os.path.join(d, "log"), "w")
    return subprocess.Popen(args, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits(prop))


def replay(binary, path, tmp, limit=300):
    """-> (violated, text). A crash, a data race, a hang and a failed judgement all violate."""
    d = tempfile.mkdtemp(dir=tmp)
    os.chmod(d, 0o755)
    try:
        p = subprocess.run([binary, "-test.run", "^TestReplay$", "-test.timeout", "1h"], cwd=d,
                           env=env(VERIF_REPLAY=path, VERIF_DIR=d, TMPDIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=limit, preexec_fn=limits(json.load(open(path))["property"]))
    except subprocess.TimeoutExpired:
        return None, "replay did not end"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode == 0:
        return False, p.stdout
    if p.returncode in (1, EXIT_HANG, EXIT_RACE) and ("REPLAY-VIOLATION" in p.stdout or p.returncode != 1):
        return True, p.stdout
    if p.returncode == 2 and ("fatal error:" in p.stdout or "panic:" in p.stdout or "stack overflow" in p.stdout):
        return True, p.stdout
    return None, "replay ended with status %s\n%s" % (p.returncode, p.stdout)


def lists(x, path=()):
    """paths of all lists within x, and of optional members"""
    if isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            yield from lists(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from lists(v, path + (k,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def reduce_case(binary, case, prop, tmp, budget):
    """Shrinks a case which ends the process (rapid cannot shrink those): drops list elements while it still fails."""
    end = time.time() + budget
    f = os.path.join(tmp, "reduce.json")

    def fails(c):
        with open(f, "w") as fh:
            json.dump({"property": prop, "case": c}, fh)
        return replay(binary, f, tmp)[0] is True

    changed = True
    while changed and time.time() < end:
        changed = False
        for path in sorted(lists(case), key=len):
            try:
                n = len(at(case, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, n // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(at(case, path)) and time.time() < end:
                    c = json.loads(json.dumps(case))
                    del at(c, path)[i:i + size]
                    if fails(c):
                        case, changed = c, True
                    else:
                        i += size
                size //= 2
    return case


def save_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (prop, os.getpid(), int(time.time())))
    with open(path, "w") as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
    return path


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        for race in (False, True):
            os.unlink(build(race))
        tmp = tempfile.mkdtemp(prefix="zverif-")
        try:
            programs(tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("harness builds")
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        prop = json.load(open(path))["property"]
        b = build(prop in RACE)
        tmp = tempfile.mkdtemp(prefix="zverif-")
        try:
            if prop in PROGRAMS:
                programs(tmp)
            bad, text = replay(b, path, tmp)
        finally:
            os.unlink(b)
            shutil.rmtree(tmp, ignore_errors=True)
        print(text)
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if bad is False else 3

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    binary = build(prop in RACE)
    tmp = tempfile.mkdtemp(prefix="zverif-")
    try:
        if prop in PROGRAMS:
            programs(tmp)
        return run(prop, tier, seed, t0, binary, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if os.path.exists(binary):
            os.unlink(binary)


def run(prop, tier, seed, t0, binary, tmp):
    meta = info(binary)[prop]
    total = meta[tier]
    if os.environ.get("VERIF_CASES"):
        total = int(os.environ["VERIF_CASES"])
    cores = max(1, min(8, len(os.sched_getaffinity(0))))
    shards = 8  # fixed: the cases are the same on any machine
    procs = 4 if prop in RACE else 2
    corpus = os.path.join(HERE, "corpus", prop)
    base = (abs(seed) % 1000000) * 1000 + 1
    todo = [(i, base + i * 10000019, total // shards + (1 if i < total % shards else 0), 0) for i in range(shards)]
    running, done, errors = {}, [], []
    violation = None  # (replay data, text)

    def judge_end(i, s, n, attempt, d, code):
        nonlocal violation
        log = open(os.path.join(d, "log"), errors="replace").read()
        out = None
        if os.path.exists(os.path.join(d, "out.json")):
            out = json.load(open(os.path.join(d, "out.json")))
        if out is not None and out["failed"]:
            done.append(out)
            fail = json.load(open(os.path.join(d, "fail.json")))
            fail.update(seed=s, checks=n, tier=tier)
            if violation is None:
                violation = (fail, fail["error"])
            return
        if code == 0 and out is not None:
            done.append(out)
            return
        cur = os.path.join(d, "current.json")
        crash = code in (EXIT_HANG, EXIT_RACE) or (code == 2 and ("fatal error:" in log or "panic:" in log))
        if crash and os.path.exists(cur):
            case = json.load(open(cur))
            f = os.path.join(d, "crash.json")
            json.dump({"property": prop, "case": case}, open(f, "w"))
            bad, text = replay(binary, f, tmp)
            tail = log[-4000:] if code == EXIT_HANG else "\n".join(log.splitlines()[:60])
            # a data race or a fatal error in the code under test is a fact even when its schedule does not come up again
            fact = code == EXIT_RACE or (code == 2 and "/repo/" in log)
            if bad or (fact and attempt >= 1):
                if bad and code != EXIT_HANG and violation is None:
                    case = reduce_case(binary, case, prop, tmp, 40)
                if violation is None:
                    violation = ({"property": prop, "case": case, "error": "the process ended (status %s)" % code, "log": tail, "seed": s, "checks": n, "tier": tier}, tail)
                return
        if attempt < 1:
            todo.append((i, s, n, attempt + 1))
        else:
            errors.append("shard %d ended with status %s\n%s" % (i, code, log[-3000:]))

    while (todo or running) and violation is None and not errors:
        while todo and len(running) < cores:
            i, s, n, attempt = todo.pop(0)
            d = tempfile.mkdtemp(prefix="s%d-" % i, dir=tmp)
            os.chmod(d, 0o755)
            p = start(binary, prop, d, s, n, tier, corpus if i == 0 and os.path.isdir(corpus) else "", procs)
            running[p] = (i, s, n, attempt, d)
        time.sleep(0.05)
        for p in list(running):
            if p.poll() is not None:
                judge_end(*running.pop(p), p.returncode)
    # a violation was found: the other shards are not needed, but those about to end may still report
    for p in running:
        p.kill()
    for p in running:
        p.wait()

    hashes, labels, samples = set(), {}, []
    for o in done:
        hashes.update(o.get("hashes") or [])
        for k, v in (o.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
    for k in range(4):
        for o in done:
            ss = o.get("samples") or []
            if k < len(ss) and len(samples) < 4:
                samples.append(ss[k])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": sum(o["evaluations"] for o in done),
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"],
            "samples": samples,
            "labels": dict(sorted(labels.items())),
            "shards": len(done),
            "saved_cases": sum(o.get("corpus", 0) for o in done),
            "skipped_after_deadline": sum(o.get("skipped", 0) for o in done),
        },
        "assumptions": meta.get("assumptions") or [],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if violation:
        path = save_replay(prop, violation[0])
        print(violation[1])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR " + "\n".join(errors))
        return 3
    c = ev["coverage"]
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    print(json.dumps(c["labels"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
