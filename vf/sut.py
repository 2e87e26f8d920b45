"""Drives the real pyGCodeDecode code from /repo and records what it did."""

import contextlib
import io
import os
import pathlib
import shutil
import sys
import tempfile
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.pop("DISPLAY", None)
sys.dont_write_bytecode = True
REPO = os.environ.get("VF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

_SCRATCH = None


def scratch():
    """Per-process scratch directory."""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get("VF_SCRATCH") or tempfile.gettempdir()
        _SCRATCH = (os.getpid(), pathlib.Path(tempfile.mkdtemp(prefix="vf_", dir=base)))
    return _SCRATCH[1]


def cleanup():
    global _SCRATCH
    if _SCRATCH is not None and _SCRATCH[0] == os.getpid():
        shutil.rmtree(_SCRATCH[1], ignore_errors=True)
        _SCRATCH = None


def modules():
    import pyGCodeDecode.gcode_interpreter as gi

    return gi


SETUP_KEYS = ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "nozzle_diam", "filament_diam", "firmware")


def write_inputs(case, tag="case"):
    d = scratch()
    g = d / f"{tag}.gcode"
    with open(g, "w", newline="", encoding="utf-8", errors="surrogateescape") as f:
        eol = case.get("eol", "\n")
        f.write(eol.join(case["lines"]) + (eol if case.get("final_eol", True) else ""))
    import yaml

    y = d / f"{tag}.yaml"
    preset = {k: case["setup"][k] for k in (*SETUP_KEYS, *case.get("preset_keys", ())) if k in case["setup"]}
    with open(y, "w", encoding="utf-8") as f:
        yaml.safe_dump({case.get("printer", "vfprinter"): preset}, f, allow_unicode=True)
    return g, y


def make_setup(case, y, gi):
    cue = case["setup"].get("layer_cue")
    s = gi.setup(presets_file=y, printer=case.get("printer", "vfprinter"), layer_cue=cue)
    ip = tuple(case["setup"].get(a, 0) for a in "XYZE")
    if any(ip):
        s.set_initial_position(ip)
    return s


class Run:
    """Result of one execution."""

    def __init__(self):
        self.sim = self.error = self.out = self.setup = self.gcode = None


def simulate(case, tag="case", unit=None):
    gi = modules()
    r = Run()
    buf = io.StringIO()
    g, y = write_inputs(case, tag)
    r.gcode, r.yaml = g, y
    try:
        with contextlib.redirect_stdout(buf):
            r.setup = make_setup(case, y, gi)
            kw = {} if unit is None else {"output_unit_system": unit}
            r.sim = gi.simulation(gcode_path=g, initial_machine_setup=r.setup, **kw)
    except RecursionError as e:
        r.error = f"RecursionError: {e}"
    except Exception as e:  # noqa: BLE001
        r.error = f"{type(e).__name__}: {e}"
    r.out = buf.getvalue()
    return r


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield buf


class Seg:
    __slots__ = ("t0", "t1", "p0", "p1", "v0", "v1")

    def __init__(self, s):
        self.t0, self.t1 = float(s.t_begin), float(s.t_end)
        self.p0 = [float(x) for x in s.pos_begin.get_vec(withExtrusion=True)]
        self.p1 = [float(x) for x in s.pos_end.get_vec(withExtrusion=True)]
        self.v0 = [float(x) for x in s.vel_begin.get_vec(withExtrusion=True)]
        self.v1 = [float(x) for x in s.vel_end.get_vec(withExtrusion=True)]


def trace(sim):
    """Recorded event log: list of blocks, each a list of Seg."""
    return [[Seg(s) for s in b.get_segments()] for b in sim.blocklist]


def states_of(states):
    out = []
    for s in states:
        p = s.state_p_settings
        out.append(
            dict(
                pos=tuple(float(x) for x in s.state_position.get_vec(withExtrusion=True)),
                feed=p.speed, p_acc=p.p_acc, jerk=p.jerk, vmax=(p.vX, p.vY, p.vZ, p.vE), units=p.units,
                pause=s.pause, comment=s.comment, layer=s.layer, line=s.line_number,
            )
        )
    return out


def preload():
    """Import everything once before forking the workers."""
    import matplotlib

    matplotlib.use("Agg")
    import pyGCodeDecode
    import pyGCodeDecode.abaqus_file_generator  # noqa: F401
    import pyGCodeDecode.cli  # noqa: F401
    import pyGCodeDecode.gcode_interpreter  # noqa: F401
    import pyGCodeDecode.tools  # noqa: F401

    f = str(pathlib.Path(pyGCodeDecode.__file__).resolve())
    if not f.startswith(str(pathlib.Path(REPO).resolve())):
        raise SystemExit(f"wrong pyGCodeDecode under test: {f}")
