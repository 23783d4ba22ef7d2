#!/usr/bin/env python3
"""Plants bugs: plant.py BUGS.py [--no-tests] [--no-check] [ids...].

BUGS.py defines B, a list of dict(id, prop, edits=[(file, old, new)], demo=python source, needs, breaks).
Works in scratch copies under /tmp/pl; writes /verif/seeded/<id> when the demonstration separates and the stable tests pass."""
import json
import os
import shutil
import subprocess
import sys
import textwrap
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SCR = Path(f"/tmp/pl{os.getpid()}")
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexport JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= LITELLM_LOCAL_MODEL_COST_MAP=True HF_HUB_OFFLINE=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(repo):
    t = Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {repo}").replace("unset OPENAI", f"unset PYTHONPATH; export PYTHONPATH={repo}; unset OPENAI", 1)
    t = t.replace("REBUILD_FIXTURES PYTHONPATH PYTEST_ADDOPTS", "REBUILD_FIXTURES PYTEST_ADDOPTS").replace("/opt/vp/work", f"{repo}/.work")
    p = Path(f"{repo}.test.sh")
    p.write_text(t)
    out = f"{repo}.tests.json"
    r = sh(f"bash {p} {out}", timeout=1500)
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open(out))["passed"]) if os.path.exists(out) else set()
    return sorted(want - got)


def one(b, notests, nocheck):
    repo = SCR / b["id"]
    shutil.rmtree(repo, ignore_errors=True)
    SCR.mkdir(exist_ok=True)
    sh(f"cp -a /repo {repo} && git -C {repo} checkout -q -- .")
    for f, old, new in b["edits"]:
        p = repo / f
        s = p.read_text()
        old, new = textwrap.dedent(old) if b.get("dedent") else old, textwrap.dedent(new) if b.get("dedent") else new
        if s.count(old) != 1:
            return f"EDIT {f}: {s.count(old)} occurrences of {old[:50]!r}"
        p.write_text(s.replace(old, new))
    patch = sh("git diff", cwd=repo).stdout
    d = SCR / (b["id"] + ".seed")
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    (d / "patch.diff").write_text(patch)
    (d / "demo.py").write_text(textwrap.dedent(b["demo"]).lstrip())
    (d / "demo.sh").write_text(DEMO_SH)
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
    good = sh(f"bash {d}/demo.sh", cwd="/repo", env={**os.environ, "PYTHONPATH": "/repo"}, timeout=300)
    if good.returncode:
        return "DEMO FAILS ON CLEAN TREE: " + (good.stdout + good.stderr)[-600:]
    bad = sh(f"bash {d}/demo.sh", cwd=repo, env={**os.environ, "PYTHONPATH": str(repo)}, timeout=300)
    if not bad.returncode:
        return "DEMO PASSES WITH PATCH"
    msg = "demo ok (" + (bad.stderr.strip().splitlines() or ["?"])[-1][:100] + ")"
    if not nocheck:
        r = sh(f"{PY} lib/runner.py {b['prop']} --tier quick", cwd=VERIF, env={**os.environ, "VERIF_REPO": str(repo)}, timeout=1200)
        v = [ln for ln in r.stdout.splitlines() if ln.startswith("VIOLATION")]
        msg += f" | {b['prop']} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED ' + (r.stdout + r.stderr)[-300:]}"
    if not notests:
        miss = tests(repo)
        msg += f" | tests missing {len(miss)} {miss[:3]}"
        if not miss:
            dst = VERIF / "seeded" / b["id"]
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            msg += " KEPT"
    shutil.rmtree(repo, ignore_errors=True)
    return msg


def main():
    a = sys.argv[1:]
    ns = {}
    exec(Path(a[0]).read_text(), ns)
    ids = [x for x in a[1:] if not x.startswith("--")]
    for b in ns["B"]:
        if ids and b["id"] not in ids:
            continue
        try:
            m = one(b, "--no-tests" in a, "--no-check" in a)
        except subprocess.TimeoutExpired as e:
            m = f"TIMEOUT {e.cmd[:60]}"
        print(b["id"], ":", m, flush=True)


main()
