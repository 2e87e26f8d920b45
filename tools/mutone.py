"""Development aid: runs a small part of every check in one process against VF_REPO; prints the first check that objects."""
import os, sys, pathlib, signal, tempfile, shutil, resource
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from vf import runner, sut

order = sys.argv[1].split(",")
n = float(sys.argv[2])
d = tempfile.mkdtemp(prefix="mo_", dir="/tmp")
os.environ["VF_SCRATCH"] = d
runner.CPU_CASE_S = 20
runner._init()
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
try:
    try:
        sut.preload()
    except BaseException as e:  # noqa: BLE001
        print("KILLED import", repr(e)[:100]); sys.exit(0)
    for p in order:
        spec = runner.load(p)
        N = max(4, int(spec["n"]["quick"] * n))
        for i in range(N):
            case = spec["gen"](runner.rng_for(p, 1, i), i, "quick")
            try:
                c = runner.run_case(spec, p, "quick", case)
            except Exception as e:  # noqa: BLE001
                print("KILLED", p, "harness", repr(e)[:100]); sys.exit(0)
            if c.violations:
                print("KILLED", p, i, c.violations[0][0], str(c.violations[0][1])[:150]); sys.exit(0)
    print("SURVIVED")
finally:
    shutil.rmtree(d, ignore_errors=True)
