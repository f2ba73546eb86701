#!/usr/bin/env python3
"""try_seed.py ID [PROPERTY...]: judges a planted change in scratch copies: it builds, passes the stable tests,
its demonstration passes without and fails with it; then runs the named properties' checks (default: its own) on it.
Nothing of /repo or /verif is modified."""
import json, os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
sid, props = sys.argv[1], sys.argv[2:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed = os.path.join(V, "seeded", sid)
meta = json.load(open(seed + "/meta.json"))
tmp = tempfile.mkdtemp(prefix="seed-" + sid + "-")
repo, verif = tmp + "/repo", tmp + "/verif"
out = []
try:
    subprocess.check_call(["cp", "-a", "/repo", repo])
    shutil.copytree(V, verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", ".build"))
    gm = verif + "/harness/go.mod"
    t = open(gm).read()
    assert "=> /repo" in t
    open(gm, "w").write(t.replace("=> /repo", "=> " + repo))

    def demo():
        return subprocess.run(["bash", seed + "/demo.sh"], cwd=repo, env=dict(os.environ), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    skip = os.environ.get("SKIP_DEMO")
    if not skip:
        d = demo()
        out.append("demo-clean=%s" % ("ok" if d.returncode == 0 else "FAILS\n" + d.stdout[-2000:]))
    subprocess.check_call(["git", "-C", repo, "apply", seed + "/patch.diff"])
    if not skip:
        b = subprocess.run(["go", "build", "./..."], cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append("build=%s" % ("ok" if b.returncode == 0 else "FAILS " + b.stdout))
        p = subprocess.run("go test -json -vet=off -count=1 -timeout 10m ./... > %s/log; python3 /opt/vp/results.py %s/o.json gojson:%s/log" % (tmp, tmp, tmp), shell=True, cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = json.load(open(tmp + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        lists = [v for v in base.values() if isinstance(v, list)]
        want = set(map(str, base.get("stable") or base.get("pass") or base.get("passed") or lists[0]))
        have = set(map(str, o.get("passed") or o.get("pass") or []))
        out.append("tests=%s" % ("ok" if want <= have else "FAIL " + str(sorted(want - have))))
        d = demo()
        out.append("demo-patched=%s" % ("fails(good)" if d.returncode else "PASSES(bad)"))
    caught = {}
    for q in props or [meta["property"]]:
        if q == "none":
            continue
        p = subprocess.run([sys.executable, verif + "/check.py", q, "quick"], cwd=verif, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        caught[q] = {0: "missed", 1: "CAUGHT"}.get(p.returncode, "error %d" % p.returncode)
        if p.returncode not in (0, 1) or os.environ.get("SHOW"):
            out.append(p.stdout[-3000:])
    print(sid, " ".join(out), caught, flush=True)
finally:
    subprocess.run(["chmod", "-R", "u+w", tmp])
    shutil.rmtree(tmp, ignore_errors=True)
