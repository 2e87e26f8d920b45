"""Runs the checks against a changed scratch copy of /repo (development aid, not used by any check).

mutrun.py [--props C01,C02] [--seed N] [--jobs N] name=patch.diff ... | name=revert:COMMIT ...
"""
import argparse, concurrent.futures as cf, json, os, pathlib, shutil, subprocess, sys, tempfile
R = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"

def one(name, src, props, seed, jobs, tests):
    d = pathlib.Path(tempfile.mkdtemp(prefix="mr_", dir="/tmp"))
    try:
        subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
        subprocess.run(["git", "-C", str(d / "repo"), "update-index", "-q", "--refresh"])
        (d / "v").mkdir()
        shutil.copytree(R / "vf", d / "v" / "vf", ignore=shutil.ignore_patterns("__pycache__"))
        if src.startswith("revert:"):
            c = src[7:]
            diff = subprocess.run(["git", "-C", "/repo", "diff", c, c + "~1"], capture_output=True, text=True).stdout
            (d / "p.diff").write_text(diff)
            ap = subprocess.run(["git", "-C", str(d / "repo"), "apply", "-3", str(d / "p.diff")], capture_output=True, text=True)
        else:
            ap = subprocess.run(["git", "-C", str(d / "repo"), "apply", str(pathlib.Path(src).resolve())], capture_output=True, text=True)
        if ap.returncode:
            return name, "APPLY FAILED " + ap.stderr[-300:], {}
        note = ""
        if tests:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_planner_block.py", "tests/test_gcode_interpreter.py::test_setup"], cwd=d / "repo", capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=str(d / "repo"), PYTHONDONTWRITEBYTECODE="1"))
            note = "tests ok" if t.returncode == 0 else "TESTS FAIL " + t.stdout[-300:]
        out = {}
        for p in props:
            r = subprocess.run([PY, "-m", "vf.runner", p, "--tier", "quick", "--seed", str(seed), "--jobs", str(jobs)], cwd=d / "v", capture_output=True, text=True,
                               env=dict(os.environ, VF_REPO=str(d / "repo")))
            if r.returncode:
                ks = [l.split("]")[0][1:] for l in r.stdout.splitlines() if l.startswith("[")]
                out[p] = (r.returncode, ks[:4], r.stderr[-200:] if r.returncode == 2 else "")
        return name, note, out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--props"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--no-tests", action="store_true"); ap.add_argument("--par", type=int, default=4)
    ap.add_argument("items", nargs="+")
    a = ap.parse_args()
    props = a.props.split(",") if a.props else ["C%02d" % i for i in range(1, 28)]
    with cf.ThreadPoolExecutor(a.par) as ex:
        fs = [ex.submit(one, *it.split("=", 1), props, a.seed, a.jobs, not a.no_tests) for it in a.items]
        for f in cf.as_completed(fs):
            name, note, out = f.result()
            print(f"{name}: {note} | " + ("; ".join(f"{p}{'' if c[0] == 1 else '!%d' % c[0]}[{','.join(c[1])}]{c[2]}" for p, c in out.items()) or "NOTHING"), flush=True)

main()
