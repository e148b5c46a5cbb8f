"""python3 tools/plant.py SPEC.py [ID ...]: make seeded/<ID>/ from a spec and try it (development aid).

SPEC.py defines BUGS, a list of dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo).
For each: edit /repo, take the diff, build, run the repository's tests, the demo (before and after) and the
quick check of the property, and put /repo back."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = '''#!/bin/bash
# run in /repo after the build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch"
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC MPLBACKEND=Agg OMP_NUM_THREADS=1
export PYTHONPATH="$here/stubs:$repo/py_gnome"
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def restore():
    run(["git", "-C", REPO, "checkout", "--", "."])


def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    native = False
    assert not run(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip(), "/repo is not clean"
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        shutil.rmtree(os.path.join(d, "stubs"), ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "stubs"), os.path.join(d, "stubs"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        out = [b["id"], b["property"]]
        r = run(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        out.append("clean demo %d%s" % (r.returncode, "" if r.returncode == 0 else " !!! " + r.stdout[-1500:]))
        try:
            nat = False
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f if f.startswith("py_gnome") else "py_gnome/gnome/" + f)
                s = open(p, encoding="latin-1", newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
                nat |= not f.endswith(".py")
            diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            run(["bash", "/opt/vp/build.sh"])
            native |= nat
            run(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            o = json.load(open("/tmp/plant.json"))
            lost = sorted(set(base) - set(o["passed"]))
            out.append("tests lost %d %s" % (len(lost), lost[:3]))
            r = run(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
            out.append("bug demo %d%s" % (r.returncode, " !!!" if r.returncode == 0 else " (%s)" % (r.stdout.strip().splitlines() or [""])[-1][:150]))
            props = [b["property"]] if not os.environ.get("PLANT_ALL") else sorted(x[:-3].upper() for x in os.listdir(HERE + "/checks") if x.endswith(".py"))
            for p in props:
                r = run(["python3", os.path.join(HERE, "check.py"), p, "--tier", "quick"], env=dict(os.environ, VERIF_SEED="1"))
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                out.append("%s exit %d %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]))
        finally:
            restore()
        print(" | ".join(out), flush=True)
    run(["bash", "/opt/vp/build.sh"])


if __name__ == "__main__":
    main()
