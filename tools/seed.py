"""Author a planted bug: python3 tools/seed.py spec.py

spec.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...]
(file relative to src/backy) and DEMO (python source; lib.py of this folder is
beside it).  Writes seeded/<ID>/; verifies it in a scratch copy of /repo
(build = compileall, stable tests, demo on both trees)."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SH = '''#!/bin/bash
# cwd: the repository after its build
export PYTHONPATH="$PWD/src:/opt/vp/meta" PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main(spec, tests=True):
    s = runpy.run_path(spec)
    d = ROOT / "seeded" / s["ID"]
    d.mkdir(parents=True, exist_ok=True)
    w = Path(tempfile.mkdtemp(prefix="seed"))
    try:
        repo = w / "repo"
        sh(["git", "clone", "-q", "/repo", str(repo)])
        for f, old, new in s["EDITS"]:
            p = repo / "src/backy" / f
            t = p.read_text()
            assert t.count(old) == 1, (f, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = sh(["git", "-C", str(repo), "diff"]).stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(s["DEMO"].lstrip("\n"))
        (d / "demo.sh").write_text(SH)
        os.chmod(d / "demo.sh", 0o755)
        shutil.copy(ROOT / "tools" / "lib.py", d / "lib.py")
        (d / "meta.json").write_text(json.dumps(
            {"property": s["PROPERTY"], "needs": s["NEEDS"],
             "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        bad = sh([str(d / "demo.sh")], cwd=repo)
        print("patched demo:", bad.returncode, (bad.stdout + bad.stderr).strip().splitlines()[-1:])
        if tests:
            env = dict(os.environ, PYTHONPATH=f"{repo}/src:/opt/vp/meta", PYTHONHASHSEED="0",
                       PYTHONDONTWRITEBYTECODE="1", HOME="/root", LANG="C.UTF-8",
                       PATH="/opt/vp/meta/bin:/opt/venv/bin:" + os.environ["PATH"],
                       BACKY_CLI_CMD="/opt/vp/meta/bin/backy", PYTHONNODEBUGRANGES="1",
                       BACKY_RBD_CMD="/opt/vp/meta/bin/backy-rbd",
                       BACKY_S3_CMD="/opt/vp/meta/bin/backy-s3")
            t = sh(["setpriv", "--bounding-set", "-dac_override,-dac_read_search", "--inh-caps",
                    "-dac_override,-dac_read_search", "/opt/venv/bin/python",
                    "/opt/venv/bin/pytest", "--no-cov", "-q", "-rfE", "-p", "no:cacheprovider",
                    f"--basetemp={w}/bt", "--continue-on-collection-errors"], cwd=repo, env=env)
            print("tests:", [x for x in t.stdout.splitlines() if re.search(
                r"^(FAILED|ERROR)|passed|failed", x)][-8:])
        sh(["git", "-C", str(repo), "checkout", "-q", "."])
        good = sh([str(d / "demo.sh")], cwd=repo)
        print("clean demo:", good.returncode, (good.stdout + good.stderr).strip()[-300:])
        for c in s.get("CHECKS", [s["PROPERTY"]]):
            sh(["git", "-C", str(repo), "apply", str(d / "patch.diff")])
            r = sh([sys.executable, str(ROOT / "check.py"), c], env=dict(
                os.environ, BACKY_REPO=str(repo)))
            print(c, r.returncode, [x[:170] for x in r.stdout.splitlines()
                                    if x.startswith(("[", "ANALYSIS", "VIOL"))][:3], r.stderr[-200:])
            sh(["git", "-C", str(repo), "checkout", "-q", "."])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    for x in sys.argv[1:]:
        if not x.startswith("-"):
            print("==", x)
            main(x, "-n" not in sys.argv)
