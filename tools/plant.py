"""Confirm planted bugs: /verif/tools/plant.py SPEC.py
SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(path under src/fastforward, old, new)...], demo=source)].
Each is applied in a scratch copy, the stable tests run there and the demonstration runs with and without it;
when all is confirmed it is kept under /verif/seeded/<id>/."""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile

SEED = pathlib.Path("/verif/seeded")
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy):
    script = open("/opt/vp/test.sh").read().replace("/repo", str(copy))
    out = copy / "_out.json"
    f = copy / "_test.sh"
    f.write_text(script)
    r = sh(["bash", str(f), str(out)])
    res = json.load(open(out))
    return res, r.stdout


def main(spec, only):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only:
            continue
        if (SEED / b["id"]).exists() and not only:
            continue
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant_"))
        copy = tmp / "repo"
        try:
            sh(["cp", "-a", "/repo", str(copy)])
            for path, old, new in b["edits"]:
                p = copy / "src/fastforward" / path
                s = p.read_text()
                assert s.count(old) == 1, (b["id"], path, old, s.count(old))
                p.write_text(s.replace(old, new))
            diff = subprocess.run(["git", "diff", "--", "src"], cwd=copy, stdout=subprocess.PIPE, text=True).stdout
            d = tmp / "demo"
            d.mkdir()
            (d / "demo.sh").write_text(SH)
            os.chmod(d / "demo.sh", 0o755)
            (d / "demo.py").write_text(b["demo"])
            good = sh(["bash", str(d / "demo.sh")], cwd="/repo")
            bad = sh(["bash", str(d / "demo.sh")], cwd=copy)
            if good.returncode != 0 or bad.returncode == 0:
                print(b["id"], "DEMO: clean", good.returncode, "patched", bad.returncode, good.stdout[-600:], bad.stdout[-300:], flush=True)
                continue
            res, log = tests(copy)
            missing = base - set(res["passed"])
            if missing:
                print(b["id"], "TESTS fail:", len(missing), sorted(missing)[:6], flush=True)
                continue
            t = SEED / b["id"]
            t.mkdir(parents=True, exist_ok=True)
            (t / "patch.diff").write_text(diff)
            for n in ("demo.sh", "demo.py"):
                shutil.copy(d / n, t / n)
            (t / "meta.json").write_text(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
            print(b["id"], "kept;", bad.stdout.strip().splitlines()[-1][:150], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main(sys.argv[1], sys.argv[2:])
