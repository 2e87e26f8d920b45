"""C15-C18, C24: queries on the finished simulation."""

import math
import random

from . import gen, interp, plan, sut, traj

FW = gen.FIRMWARES
K = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}
UNITS = ("SI", "SImm", "inch")

MIX = [{}, {"corner": 5, "polygon": 3}, {"retract": 5, "dwell": 3}, {"chain": 1, "collinear": 4, "tiny": 3}, {"speedstep": 5, "settings": 3}, {"zigzag": 5, "arc": 3}, {"axes": 6, "helix": 2}]


def program(r, i, sizes=(1, 7), weights=None, long=130, **o):
    w = dict(r.choice(MIX))
    w.update(weights or {})
    if r.random() < 0.2 and "cue" not in o:
        o["cue"], w["layer"] = "LAYER", 6
    k = 1.0 if o.get("must") or i % 797 == 41 else r.random()
    if k < 0.05:
        c = gen.tiny_program(r, FW[i % len(FW)], o.get("cue"))
    elif k > 0.98 and not o.get("must") and i % 797 != 41:
        c = gen.extreme_program(r, FW[i % len(FW)], o.get("cue"))
    else:
        size = r.randint(*sizes) if i % 797 != 41 else long  # one program of some thousand pieces of motion
        c = gen.gen_case(r, firmware=FW[i % len(FW)], size=size, weights=w, wild=r.random() < 0.1, deco=r.choice([0, 0, 0.15]), **o)
        if 0.05 <= k < 0.1:  # far away from the origin
            far = dict(c, lines=[r.choice(["G1 X4000 Y-3000 F9000", "G0 X-2500 Z1200", "G1 Y60000 F30000"])] + c["lines"])
            c = far if gen.valid(far) else c
    c["refresh"] = r.choice([0] * 6 + [1, 1, 2])
    return c


def start(case, ctx, unit=None, tag="case"):
    """Simulate, possibly refresh; -> (Run, flat recorded segments) or None."""
    r = sut.simulate(case, tag=tag, unit=unit)
    if r.error:
        ctx.bad("crash", f"simulation failed: {r.error[:300]}")
        return None, None
    for _ in range(case.get("refresh", 0)):
        with sut.quiet():
            r.sim.refresh()
        ctx.count("refreshed")
    r.blocks = sut.trace(r.sim)
    segs = [s for b in r.blocks for s in b]
    if any(not all(map(math.isfinite, (s.t0, s.t1, *s.p0, *s.p1, *s.v0, *s.v1))) for s in segs):
        ctx.bad("finite", "non-finite number in the trajectory")
        return None, None
    return r, segs


def clear(segs, t):
    """Within a segment, not close to one of its ends."""
    return any(s.t0 + 1e-9 * (1 + t) < t < s.t1 - 1e-9 * (1 + t) for s in segs)


def near(a, b, tol):
    return all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def same_unit_close(a, b, rel, ab):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + ab


# ---------------------------------------------------------------- C15

def c15_gen(r, i, tier):
    c = program(r, i, sizes=(1, 5), weights={"chain": 0.3}, long=400)
    c["qseed"] = r.randrange(1 << 30)
    c["nq"] = r.choice([10, 25, 40])
    c["unit"] = r.choice([None, None, None, "SI", "inch"])
    return c


def query_times(segs, rnd, n):
    end = segs[-1].t1
    ts = []
    for _ in range(n):
        k = rnd.random()
        s = rnd.choice(segs)
        if k < 0.35:
            t = rnd.uniform(0, end)
        elif k < 0.55:
            t = rnd.choice([s.t0, s.t1])
        elif k < 0.65:
            t, way = rnd.choice([s.t0, s.t1]), rnd.choice([0, math.inf])
            for _ in range(rnd.choice([1, 1, 2, 4])):
                t = math.nextafter(t, way)
        elif k < 0.7:
            t = rnd.uniform(s.t0, s.t1)
        elif k < 0.77:  # shortly before or behind a boundary
            t = rnd.choice([s.t0, s.t1]) + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-7, -2)
        elif k < 0.82:
            t = rnd.choice([0.0, end, math.nextafter(end, 0)])
        elif k < 0.9 and ts:
            t = rnd.choice(ts)
        else:
            t = rnd.uniform(0, min(end, s.t1))
        ts.append(min(max(0.0, t), end))
    return ts


def c15_check(case, ctx):
    unit = case.get("unit")
    r, segs = start(case, ctx, unit)
    if r is None:
        return
    sim, k = r.sim, K[unit or "SImm"]
    rnd = random.Random(case.get("qseed", 1))
    end = segs[-1].t1
    ts = query_times(segs, rnd, case.get("nq", 20))
    orders = {
        "given": list(ts), "ascending": sorted(ts), "descending": sorted(ts, reverse=True), "shuffled": rnd.sample(ts, len(ts)),
        "alternating": [x for p in zip(sorted(ts), sorted(ts, reverse=True)) for x in p],
    }
    names = ["given"] + rnd.sample([k for k in orders if k != "given"], 2)
    first = {}
    for name in names:
        for t in orders[name]:
            if rnd.random() < 0.05:  # a question without an answer must not disturb later ones
                try:
                    with sut.quiet():
                        res = sim.get_values(t=rnd.choice([-1e-3, -5.0, -1e-12, math.nextafter(0, -1), -math.inf, math.inf, math.nan, math.nextafter(end, math.inf), end + 1e-9, end + 1e-7, end * (1 + 1e-6) + 1e-6, end + 10]))
                    ctx.expect(False, "outside", f"a time outside of the print is answered with {res}")
                except Exception:  # noqa: BLE001
                    ctx.count("outside_rejected")
            with sut.quiet():
                vel, pos = sim.get_values(t=t)
            vel, pos = [float(x) / k for x in vel], [float(x) / k for x in pos]
            ctx.count("queries")
            cand = traj.at(segs, t)
            okp = [c for c in cand if traj.maxdiff(pos, c[0]) <= 1e-8 * (1 + sp1(cand) * 1e-3)]
            if not okp:
                ctx.bad("position", f"t={t!r} ({name} order): position {pos}, the trajectory is at {[c[0] for c in cand]}")
                return
            sp = sp1(cand)
            if not any(traj.maxdiff(vel, c[1]) <= 1e-8 * sp for c in okp) and not slack(segs, t, vel, sp):
                ctx.bad("velocity", f"t={t!r} ({name} order): velocity {vel}, the trajectory has {[c[1] for c in cand]}")
                return
            if t in first:
                v0, p0 = first[t]
                ctx.count("repeated_queries")
                if traj.maxdiff(pos, p0) > 1e-9 * (1 + max(map(abs, p0))) or (clear(segs, t) or not overlap(segs, t)) and traj.maxdiff(vel, v0) > 1e-9 * sp:
                    ctx.bad("history", f"t={t!r} is answered with {vel} {pos}, but earlier with {v0} {p0}")
                    return
            else:
                first[t] = (vel, pos)
    # the queries left no trace in the trajectory
    after = [s for b in sut.trace(sim) for s in b]
    same = len(after) == len(segs) and all((a.t0, a.t1, a.p0, a.p1, a.v0, a.v1) == (b.t0, b.t1, b.p0, b.p1, b.v0, b.v1) for a, b in zip(after, segs))
    ctx.expect(same, "purity", "querying changed the trajectory")


def sp1(cand):
    return 1 + max((max(map(abs, c[1])) for c in cand), default=0.0)


def slack(segs, t, vel, sp):
    """Very short segments: the velocity changes by much within the resolution of the clock."""
    for s in segs:
        if s.t0 - 1e-9 <= t <= s.t1 + 1e-9 and s.t1 - s.t0 < 1e-7:
            lo = [min(a, b) - 1e-6 * sp for a, b in zip(s.v0, s.v1)]
            hi = [max(a, b) + 1e-6 * sp for a, b in zip(s.v0, s.v1)]
            if all(x <= v <= y for x, v, y in zip(lo, vel, hi)):
                return True
    return False


def overlap(segs, t):
    """A rounding overlap of neighbouring segments at t makes either side a right answer."""
    return any(b.t0 < a.t1 and abs(a.t1 - t) < 1e-9 for a, b in zip(segs, segs[1:]))


# ---------------------------------------------------------------- C16

def c16_gen(r, i, tier):
    c = program(r, i, sizes=(1, 4), weights={"chain": 0.2, "retract": 2})
    c["unit"] = r.choice(["SI", "inch", "inch", "SImm", None])
    c["qseed"] = r.randrange(1 << 30)
    c["bad_unit"] = r.choice(["mm", "si", "Inch", "m", "", "in", 1.0])
    return c


def ex(f):
    """Result or the exception type."""
    try:
        return f()
    except ValueError:
        return "ValueError"


def c16_check(case, ctx):
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series as aba

    unit = case.get("unit")
    base, segs = start(case, ctx, "SImm", "base")
    if base is None:
        return
    other, segs2 = start(case, ctx, unit, "other")
    if other is None:
        return
    gi = sut.modules()
    k = K[unit or "SImm"]
    d = sut.scratch()
    ctx.count("unit_" + str(unit))
    end = segs[-1].t1
    if not ctx.expect(abs(segs2[-1].t1 - end) <= 1e-12 * (1 + end) and len(segs) == len(segs2), "time", f"end time {segs2[-1].t1} in {unit}, {end} in mm"):
        return
    rnd = random.Random(case.get("qseed", 1))
    ts = [0.0, end] + [rnd.choice([rnd.uniform(0, end), rnd.choice(segs).t1]) for _ in range(8)]
    with sut.quiet():
        for t in ts:
            v, p = base.sim.get_values(t=t)
            for call in (None, *UNITS):
                f = k if call is None else K[call]
                v2, p2 = other.sim.get_values(t=t) if call is None else other.sim.get_values(t=t, output_unit_system=call)
                ctx.count("values_compared", 8)
                if not (all(same_unit_close(a, f * b, 1e-9, 1e-12) for a, b in zip(p2, p)) and all(same_unit_close(a, f * b, 1e-9, 1e-12) for a, b in zip(v2, v))):
                    ctx.bad("values", f"simulation in {unit}, asked for {call}: {v2} {p2} at t={t}; in mm {v} {p} (factor {f})")
                    return
        ext, mx = ex(base.sim.extrusion_extent), ex(base.sim.extrusion_max_vel)
        for call in (None, *UNITS):
            f = k if call is None else K[call]
            kw = {} if call is None else {"output_unit_system": call}
            e2, m2 = ex(lambda: other.sim.extrusion_extent(**kw)), ex(lambda: other.sim.extrusion_max_vel(**kw))
            if isinstance(ext, str) or isinstance(e2, str):
                ctx.expect(isinstance(ext, str) and isinstance(e2, str), "extent", f"extent {e2} in {call}, {ext} in mm")
            else:
                ctx.count("extents_compared")
                ctx.expect(all(same_unit_close(float(a), f * float(b), 1e-9, 1e-12) for a, b in zip(e2.flat, ext.flat)), "extent",
                           f"simulation in {unit}, asked for {call}: extent {e2.tolist()}, in mm {ext.tolist()}")
                ctx.expect(same_unit_close(float(m2), f * float(mx), 1e-9, 1e-12), "max_vel", f"simulation in {unit}, asked for {call}: {m2}, in mm {mx}")
            rows = aba(other.sim, filepath=str(d / "u.inp"), **kw)
            ref = aba(base.sim, filepath=str(d / "b.inp"))
            ctx.count("rows_compared", len(ref))
            bad = len(rows) != len(ref) or any(
                abs(a[0] - b[0]) > 1e-12 * (1 + b[0]) or a[4] != b[4] or not all(same_unit_close(x, f * y, 1e-9, 1e-12) for x, y in zip(a[1:4], b[1:4]))
                for a, b in zip(rows, ref))
            ctx.expect(not bad, "events", f"event series of a simulation in {unit} written in {call} is not that in mm times {f}")
            file = [[float(x) for x in ln.split(",")] for ln in (d / "u.inp").read_text().split()]
            bad = len(file) != len(ref) or any(not all(abs(x - f * y) <= 1e-8 for x, y in zip(a[1:4], b[1:4])) for a, b in zip(file, ref))
            ctx.expect(not bad, "events", f"event file of a simulation in {unit} written in {call} is not that in mm times {f}")
        # the summary uses the unit of the simulation
        if not isinstance(ext, str):
            import yaml

            other.sim.save_summary(d / "s.yaml")
            s = yaml.safe_load((d / "s.yaml").read_text())
            got = [s[a + "_min"] for a in "xyz"] + [s[a + "_max"] for a in "xyz"] + [s["max_extrusion_travel_velocity"]]
            exp = [k * float(x) for x in ext.flat] + [k * float(mx)]
            ctx.expect(all(same_unit_close(a, b, 1e-9, 1e-12) for a, b in zip(got, exp)) and abs(s["t_end"] - end) <= 1e-9 * (1 + end), "summary",
                       f"summary of a simulation in {unit}: {s}, expected {exp}")
        # the choice of one simulation does not leak into another, and unknown units are refused
        v, p = base.sim.get_values(t=end)
        ctx.expect(near(p, segs[-1].p1, 1e-9), "leak", f"after using {unit} elsewhere the position in mm is {p}, not {segs[-1].p1}")
    for f in (lambda: gi.simulation(gcode_path=base.gcode, initial_machine_setup=base.setup, output_unit_system=case["bad_unit"]),
              lambda: base.sim.get_values(t=0.0, output_unit_system=case["bad_unit"])):
        try:
            with sut.quiet():
                res = f()
            ctx.bad("accepted", f"unit {case['bad_unit']!r} is accepted: {res!r:.100}")
        except (ValueError, KeyError):
            ctx.count("units_refused")


# ---------------------------------------------------------------- C17

def c17_gen(r, i, tier):
    style = r.random()
    w = {"chain": 0.3, "retract": r.choice([0, 3, 6])}
    c = program(r, i, sizes=(1, 7), weights=w, p_ext=0.0 if style < 0.15 else r.choice([0.05, 0.3, 0.7, 1.0]))
    if r.random() < 0.4:
        L = c["lines"]
        for _ in range(r.randint(1, 3)):
            j = r.randint(0, len(L))
            L[j:j] = [r.choice(["G1 E2 F1800", "M83\nG1 E-3\nM82", "G1 X500 Y-400 F9000", "G0 Z80", "M83\nG1 X300 E-1\nM82", "M83\nG1 Y260 E0.0001\nM82", "G92 E0", "G4 P3"])]
        c["lines"] = [x for s in L for x in s.split("\n")]
    if gen.valid(c) is None:
        c = program(r, i, weights=w)
    c["unit"] = r.choice([None, None, "SI", "inch"])
    c["deep"] = r.random() < 0.5
    return c


def c17_check(case, ctx):
    import yaml

    unit = case.get("unit")
    r, segs = start(case, ctx, unit)
    if r is None:
        return
    k = K[unit or "SImm"]
    st = interp.interpret(case["lines"], case["setup"])
    mv = plan.plan(st, case["setup"]["firmware"])
    pts = [p[:3] for m in mv if m.kind == "move" and m.b[3] > m.a[3] for p in (m.a, m.b)]
    # speeds from the recorded trajectory: whenever the extruder position increases
    sp = [max(traj.norm3(s.v0), traj.norm3(s.v1)) for s in segs if s.p1[3] - s.p0[3] > 1e-13]
    d = sut.scratch()
    with sut.quiet():
        if not pts:
            for f, what in ((r.sim.extrusion_extent, "extent"), (r.sim.extrusion_max_vel, "maximum velocity")):
                try:
                    res = f()
                    ctx.bad("no_extrusion", f"{what} of a program that never extrudes: {res}")
                except ValueError:
                    ctx.count("no_extrusion")
            return
        ext = r.sim.extrusion_extent()
        mx = float(r.sim.extrusion_max_vel())
        lo, hi = [k * min(p[i] for p in pts) for i in range(3)], [k * max(p[i] for p in pts) for i in range(3)]
        ctx.count("extents")
        allp = [m.a[:3] for m in mv] + [m.b[:3] for m in mv]
        if any(min(p[i] for p in allp) * k < lo[i] - 1e-9 or max(p[i] for p in allp) * k > hi[i] + 1e-9 for i in range(3)):
            ctx.count("travel_outside_extent")
        if not ctx.expect(ext.shape == (2, 3), "extent", f"shape {ext.shape}"):
            return
        ctx.expect(traj.maxdiff(ext[0], lo) <= traj.TP and traj.maxdiff(ext[1], hi) <= traj.TP, "extent", f"extent {ext.tolist()}, extruding moves span {lo} {hi}")
        ctx.expect(abs(mx - k * max(sp)) <= 1e-9 * k * (1 + max(sp)), "max_vel", f"maximum extrusion velocity {mx}, the trajectory shows {k * max(sp)}")
        if max(traj.norm3(s.v0) for s in segs) > max(sp) * 1.001:
            ctx.count("faster_travel")
        # consistency with the queries: no sampled extruding instant is outside
        rnd = random.Random(len(segs))
        for s in rnd.sample(segs, min(8, len(segs))):
            t = rnd.uniform(s.t0, s.t1)
            v, p = r.sim.get_values(t=t)
            if v[3] > 1e-9:
                ctx.count("instants")
                ctx.expect(all(a - 2 * traj.TP <= x <= b + 2 * traj.TP for a, x, b in zip(lo, p[:3], hi)), "extent", f"extrudes at {p[:3]}, outside of {lo} {hi}")
                ctx.expect(traj.norm3(v) <= mx * (1 + 1e-6) + 1e-9, "max_vel", f"extrudes with {traj.norm3(v)}, reported maximum {mx}")
        f = d / ("deep/b/c/s.yaml" if case.get("deep") else "s.yaml")
        if not case.get("deep") and rnd.random() < 0.4:  # an older file of that name
            f.write_text("filename: old\nx_min: 1\nolder: 2\n" * 20)
        f = str(f) if rnd.random() < 0.5 else f
        r.sim.save_summary(f)
        s = yaml.safe_load(open(f).read())
    exp = {"filename": str(r.gcode), "t_end": segs[-1].t1, "max_extrusion_travel_velocity": k * max(sp)}
    for i, a in enumerate("xyz"):
        exp[a + "_min"], exp[a + "_max"] = lo[i], hi[i]
    if ctx.expect(set(s) == set(exp), "summary", f"keys {sorted(s)}"):
        ctx.count("summaries")
        for kk, e in exp.items():
            ok = s[kk] == e if isinstance(e, str) else abs(s[kk] - e) <= 1e-8 * (k + abs(e))
            ctx.expect(ok, "summary", f"{kk}: {s[kk]}, expected {e}")
    import shutil

    shutil.rmtree(d / "deep", ignore_errors=True)


# ---------------------------------------------------------------- C18

def c18_gen(r, i, tier):
    c = program(r, i, sizes=(1, 5), weights={"retract": 2, "chain": 0.2, "dwell": 1})
    c["unit"] = r.choice([None, "SI", "inch"])
    c["h"] = r.choice([0.05, 0.2, 0.3, 1.0, 0.0002])
    c["d"] = r.choice([1.75, 2.85, 1.0, 0.00175])
    c["qseed"] = r.randrange(1 << 30)
    return c


def c18_check(case, ctx):
    unit = case.get("unit")
    r, segs = start(case, ctx, unit)
    if r is None:
        return
    st = interp.interpret(case["lines"], case["setup"])
    rep = traj.check(st, case["setup"]["firmware"], r.blocks)
    if rep.skip or any(t in ("path", "finite") for t, _ in rep.v):
        if rep.v:
            ctx.bad("path", rep.v[0][1])
        ctx.skipped = rep.skip
        return
    h, dia = case["h"], case["d"]
    rnd = random.Random(case.get("qseed", 1))
    pick = [(g, s) for g in rep.groups for s in g.segs + g.dsegs if s.t1 - s.t0 > 1e-7]
    if not pick:
        ctx.trivial = True
        return
    for g, s in [rnd.choice(pick) for _ in range(25)]:
        q = rnd.choice([rnd.uniform(0.02, 0.98)] * 4 + [1e-5, 1 - 1e-5])  # also next to standstill
        if q < 0.01 or q > 0.99:
            ctx.count("near_ends")
        t = s.t0 + (s.t1 - s.t0) * q
        with sut.quiet():
            w = float(r.sim.get_width(t=t, extrusion_h=h, filament_dia=dia))
        m = g.move
        if m is None or s in g.dsegs or m.eonly:
            exp = 0.0
            ctx.count("standstill")
        else:
            dist = math.dist(m.a[:3], m.b[:3])
            exp = (m.b[3] - m.a[3]) / dist * math.pi * dia * dia / 4 / h
            ctx.count("extruding" if exp > 0 else "travel" if exp == 0 else "retracting")
            # volume pushed in equals volume laid down in this segment: width is the same all along the move
        if not ctx.expect(abs(w - exp) <= 1e-7 * abs(exp) + 1e-9 * dia * dia / h, "width", f"t={t}: width {w}, expected {exp} (line {g.line}, unit {unit}, height {h}, filament {dia})"):
            return
    with sut.quiet():
        for t in (0.0, segs[-1].t1):
            w = float(r.sim.get_width(t=t, extrusion_h=h, filament_dia=dia))
            v = [c[1] for c in traj.at(segs, t)]
            if all(traj.norm3(x) == 0 for x in v):
                ctx.expect(w == 0, "width", f"width {w} at standstill (t={t})")
                ctx.count("standstill")
        # linear in 1/height, quadratic in the diameter
        g, s = rnd.choice(pick)
        t = s.t0 + (s.t1 - s.t0) * rnd.uniform(0.1, 0.9)
        w1, w2 = (float(r.sim.get_width(t=t, extrusion_h=a, filament_dia=b)) for a, b in ((h, dia), (2 * h, 3 * dia)))
        ctx.expect(abs(w2 - 4.5 * w1) <= 1e-9 * (1 + abs(w2)), "width", f"height x2 and diameter x3: {w1} -> {w2}")


# ---------------------------------------------------------------- C24

def c24_gen(r, i, tier):
    def vec():
        s = r.choice([1e-9, 1e-3, 1.0, 1e3, 1e6])
        return [r.choice([0, 0.0, r.randint(-5, 5), r.uniform(-s, s)]) for _ in range(4)]

    t0 = r.choice([0, 0.0, r.uniform(0, 10), r.uniform(0, 1e4)])
    a, b = vec(), vec()
    k = r.random()
    if k < 0.1:  # same place, possibly another extruder position
        b = a[:3] + [r.choice([a[3], b[3], -a[3]])]
    elif k < 0.2:  # one component differs, or has the opposite sign
        j = r.randrange(4)
        b = [r.choice([y, -x]) if i == j else x for i, (x, y) in enumerate(zip(a, b))]
    return {"a": a, "b": b, "k": r.choice([r.randint(-5, 5) or 2, r.uniform(-10, 10) or 1.0, 1e-6, 3]), "t0": t0,
            "dt": r.choice([0, r.uniform(1e-6, 1e-3), r.uniform(0.01, 5), r.uniform(1e-9, 1e-7) if t0 == 0 else 0.5]), "v0": [r.uniform(-100, 100) for _ in range(4)],
            "v1": [r.uniform(-100, 100) for _ in range(4)], "p0": [r.uniform(-200, 200) for _ in range(4)], "shift": r.choice([0.0, r.uniform(0, 50), 1e-9]),
            "cls": r.choice(["velocity", "position", "vector_4D"]), "us": [r.random() for _ in range(3)], "off": r.choice([1e-7 * (1 + t0), 1e-6 * (1 + t0), 1e-5, 1e-4, 1e-3, 0.5, 3.0]), "gap": r.choice([3e-6, -3e-6, 1e-5, 1e-4, 1e-3, -0.1])}


def c24_check(case, ctx):
    import numpy as np
    from pyGCodeDecode import utils

    C = getattr(utils, case["cls"])
    a, b, k = case["a"], case["b"], case["k"]
    A, B = C(*a), C(list(b))

    def is_(x, e, what):
        ctx.count("algebra")
        ok = type(x) is C and all(abs(float(p) - q) <= 1e-12 * (1 + abs(q)) for p, q in zip(x.get_vec(withExtrusion=True), e))
        ctx.expect(ok, "algebra", f"{what} of {a} and {b} is {x} ({type(x).__name__}), expected {e}")

    for o, what in ((B, "vector"), (list(b), "list"), (tuple(b), "tuple"), (np.asarray(b, dtype=float), "array")):
        is_(A + o, [x + y for x, y in zip(a, b)], "sum with " + what)
        is_(A - o, [x - y for x, y in zip(a, b)], "difference with " + what)
        eq = all(np.isclose(x, y) for x, y in zip(a, b))
        ctx.expect(bool(A == o) == bool(eq), "equality", f"{a} == {what} {b} is {A == o}")
    ctx.expect(bool(A == C(*a)) and bool(A == list(a)), "equality", f"{a} differs from itself")
    j = case["us"][0]
    moved = list(a)
    moved[int(j * 4)] += max(case["off"], 5e-5) * abs(a[int(j * 4)]) + (2e-7 if case["us"][1] < 0.5 else case["off"])
    ctx.expect(not (A == C(*moved)), "equality", f"{a} equals {moved}")
    for kk in (k, float(k), np.float64(k), int(k) or 1):
        is_(A * kk, [x * kk for x in a], f"product by {kk!r}")
        is_(A / kk, [x / kk for x in a], f"quotient by {kk!r}")
    for o in (a[:3], tuple(a) + (0,), None, "1234", 0, np.asarray(a[:3])):
        try:
            res = A == o
        except (IndexError, TypeError, ValueError) as e:
            ctx.bad("equality", f"comparison of {a} with {o!r} fails: {e!r}")
            continue
        ctx.expect(not res, "equality", f"{a} equals {o!r}")
    ctx.expect(A.get_vec(withExtrusion=True) == a and B.get_vec(withExtrusion=True) == list(b) and A.get_vec() == a[:3], "purity", f"operands changed to {A}, {B}")
    for f in (lambda: C(1, 2, 3), lambda: C([1, 2, 3, 4, 5]), lambda: A + [1, 2, 3], lambda: A - 5, lambda: A * "x", lambda: A * A, lambda: A / [2], lambda: A - [1, 2, 3],
              lambda: A - (1, 2, 3, 4, 5), lambda: A + "1234", lambda: A - {0: 1, 1: 1, 2: 1, 3: 1}, lambda: A * np.asarray(a), lambda: A / np.asarray([2.0]), lambda: A * None,
              lambda: A + None, lambda: A * [2]):
        try:
            res = f()
            ctx.bad("accepted", f"an operand that is no 4D vector is accepted: {res}")
        except (ValueError, TypeError):
            ctx.count("refused")
    n3, n4 = math.sqrt(sum(x * x for x in a[:3])), math.sqrt(sum(x * x for x in a))
    ctx.expect(abs(A.get_norm() - n3) <= 1e-12 * n3 and abs(A.get_norm(withExtrusion=True) - n4) <= 1e-12 * n4, "norm", f"norms {A.get_norm()} of {a}")
    # positions: distance, travel, extrusion
    P, Q = utils.position(*a), utils.position(*b)
    d3, d4 = math.dist(a[:3], b[:3]), math.dist(a, b)
    ctx.expect(abs(P.get_t_distance(Q) - d3) <= 1e-12 * (1 + d3) and abs(P.get_t_distance(Q, withExtrusion=True) - d4) <= 1e-12 * (1 + d4)
               and abs(P.get_t_distance() - n3) <= 1e-12 * n3, "distance", f"distance {P.get_t_distance(Q)} between {a} and {b}")
    ctx.expect(bool(P.is_travel(Q)) == (a[:3] != b[:3]), "travel", f"is_travel from {a} to {b}")
    ctx.expect(bool(P.is_extruding(Q)) == (b[3] > a[3]) and bool(P.is_extruding(Q, ignore_retract=False)) == (a[3] != b[3]), "extruding", f"is_extruding from {a} to {b}")
    for o in (list(b), tuple(b), np.asarray(b, dtype=float)):
        ctx.count("plain_operands")
        try:
            got = (float(P.get_t_distance(o)), float(P.get_t_distance(o, withExtrusion=True)), bool(P.is_travel(o)), bool(P.is_extruding(o)), bool(P.is_extruding(o, ignore_retract=False)))
        except (TypeError, AttributeError, ValueError) as e:
            ctx.bad("distance", f"{type(o).__name__} operand of a position: {e!r}")
            continue
        want = (d3, d4, a[:3] != b[:3], b[3] > a[3], a[3] != b[3])
        ctx.expect(all(abs(x - y) <= 1e-12 * (1 + y) for x, y in zip(got, want)), "distance", f"{a} against {type(o).__name__} {b}: {got}, expected {want}")
    V = utils.velocity(*a)
    ctx.expect(bool(V.not_zero()) == any(a) and bool(V.is_extruding()) == (a[3] > 0), "extruding", f"not_zero/is_extruding of {a}")
    u, ue = V.get_norm_dir(), V.get_norm_dir(withExtrusion=True)
    if n3 > 0:
        ctx.expect(all(abs(x * n3 - y) <= 1e-9 * n3 for x, y in zip(u, a)) and all(abs(x * n3 - y) <= 1e-9 * n3 + 1e-9 * abs(y) for x, y in zip(ue, a)) and len(ue) == 4,
                   "direction", f"direction of {a} is {u}, {ue}")
    else:
        ctx.expect(u is None, "direction", f"direction of {a} is {u}")
        if a[3]:
            ctx.expect(all(abs(x - y) < 1e-12 for x, y in zip(ue, [0, 0, 0, math.copysign(1, a[3])])), "direction", f"direction of {a} is {ue}")
        else:
            ctx.expect(ue is None, "direction", f"direction of {a} is {ue}")
    # segments
    t0, dt, p0, v0 = case["t0"], case["dt"], case["p0"], case["v0"]
    v1 = case["v1"] if dt else v0
    t1 = t0 + dt
    h = t1 - t0
    p1 = [p + (x + y) / 2 * h for p, x, y in zip(p0, v0, v1)]
    S = utils.segment(t0, t1, utils.position(*p0), utils.velocity(*v0), utils.position(*p1), utils.velocity(*v1))
    S.move_segment_time(case["shift"])
    s0, s1 = t0 + case["shift"], t1 + case["shift"]
    ctx.expect(abs(S.t_begin - s0) <= 1e-12 * (1 + s0) and abs(S.t_end - s1) <= 1e-12 * (1 + s1), "shift", f"shifted by {case['shift']}: {S.t_begin}, {S.t_end}")
    ctx.expect(abs(S.get_segm_duration() - h) <= 1e-11 * (1 + s1) and abs(S.get_segm_len() - math.dist(p0[:3], p1[:3])) <= 1e-9 * (1 + math.dist(p0, p1)), "length",
               f"length {S.get_segm_len()}, duration {S.get_segm_duration()}")
    ctx.expect(bool(S.is_extruding()) == (p1[3] > p0[3]), "extruding", "segment.is_extruding")
    h = S.t_end - S.t_begin
    if h <= 1e-9:
        ctx.count("instant_segments")
    res = 1e-11 * (1 + s1) / h if h > 0 else 0
    if h > 1e-9 or h > 0 and S.t_begin == 0:
        for q in [0.0, 1.0] + case["us"]:
            t = min(S.t_begin + q * h, S.t_end)
            x = t - S.t_begin
            ev = [p + (r_ - p) * x / h for p, r_ in zip(v0, v1)]
            ep = [p + v * x + (r_ - v) * x * x / h / 2 for p, v, r_ in zip(p0, v0, v1)]
            gv, gp = S.get_velocity(t).get_vec(withExtrusion=True), S.get_position(t).get_vec(withExtrusion=True)
            ctx.count("segment_queries")
            ctx.expect(near(gv, ev, 1e-9 + res * 1e2) and near(gp, ep, 1e-9 + res), "segment", f"at {q} of the segment: {gv} {gp}, expected {ev} {ep}")
        gp = S.get_position(S.t_end).get_vec(withExtrusion=True)
        ctx.expect(near(gp, p1, 1e-8), "segment", f"ends at {gp} instead of {p1}")
    for t in (S.t_begin - case["off"], S.t_end + case["off"]):
        for f in (S.get_velocity, S.get_position):
            try:
                res = f(t)
                ctx.bad("accepted", f"segment [{S.t_begin}, {S.t_end}] answers for t={t}: {res}")
            except ValueError:
                ctx.count("refused")
    # inconsistent segments are refused
    off = list(p1)
    off[int(j * 3)] += case["gap"] + 1e-9 * abs(p1[int(j * 3)])
    back = t0 - 10 ** -(2 + 5 * j) * (1 + 1e-6 * t0)  # ends a little before it begins
    for args in ((t0, t1, p0, v0, off, v1), (t1 + 1, t0, p0, [0] * 4, p0, [0] * 4), (t0, back, p0, [0] * 4, p0, [0] * 4)):
        try:
            utils.segment(args[0], args[1], utils.position(*args[2]), utils.velocity(*args[3]), utils.position(*args[4]), utils.velocity(*args[5]))
            ctx.bad("accepted", f"inconsistent segment {args} is accepted")
        except ValueError:
            ctx.count("refused")
    # its own check objects to a speed above the settings
    from pyGCodeDecode.state import state

    top = max(math.sqrt(sum(x * x for x in v[:3])) for v in (v0, v1))
    for which, f, ok in (("above", 1.01, True), ("below", 0.99, False)):
        speed = f * top + (1e-3 if ok else -1e-3)
        try:
            S.self_check(p_settings=state.p_settings(p_acc=1, jerk=1, vX=1, vY=1, vZ=1, vE=1, speed=speed))
            ctx.expect(ok, "accepted", f"self-check accepts {top} mm/s at {speed} mm/s")
        except ValueError as e:
            ctx.count("refused")
            ctx.expect(not ok, "segment", f"self-check refuses {top} mm/s at {speed} mm/s: {e}")
    I = utils.segment.create_initial(utils.position(*p0))
    ctx.expect(I.t_begin == 0 and I.t_end == 0 and I.pos_begin.get_vec(withExtrusion=True) == p0 and I.pos_end.get_vec(withExtrusion=True) == p0
               and not any(I.vel_begin.get_vec(withExtrusion=True)) and not any(I.vel_end.get_vec(withExtrusion=True)), "initial", f"initial segment {I}")
    I = utils.segment.create_initial()
    ctx.expect(I.t_begin == 0 and I.t_end == 0 and not any(x for v in (I.pos_begin, I.pos_end, I.vel_begin, I.vel_end) for x in v.get_vec(withExtrusion=True)),
               "initial", f"initial segment {I}")


RULE = "Generated programs round-robin over the five corner rules; "

PROPS = {
    "C15": dict(gen=c15_gen, check=c15_check, n={"quick": 9000, "thorough": 18000}, chunk=8, need={"queries": 15000, "repeated_queries": 8000, "outside_rejected": 300},
                rule=RULE + "random, boundary, one-ulp-beside-boundary, repeated and out-of-range times asked in three orders on one simulation; every answer is compared"
                " with the recorded trajectory and with earlier answers for the same time. Non-trivial: every program."),
    "C16": dict(gen=c16_gen, check=c16_check, n={"quick": 6500, "thorough": 16000}, chunk=8, need={"values_compared": 60000, "extents_compared": 400, "units_refused": 500},
                rule=RULE + "each simulated in millimetres and in another unit; all outputs are compared under every per-call unit. Non-trivial: every program."),
    "C17": dict(gen=c17_gen, check=c17_check, n={"quick": 12000, "thorough": 24000}, chunk=10, need={"extents": 250, "no_extrusion": 30, "summaries": 200,
                "travel_outside_extent": 50, "faster_travel": 30},
                rule=RULE + "with travels, retractions and E-only moves far outside of the part; extent and maximum velocity are recomputed from the reference reading and the"
                " recorded trajectory, the summary file is read back. Non-trivial: every program."),
    "C18": dict(gen=c18_gen, check=c18_check, n={"quick": 12000, "thorough": 18000}, chunk=8, need={"extruding": 2000, "standstill": 200, "travel": 300},
                rule=RULE + "25 random instants per program; the width must equal extruded length per travelled length times the filament cross section over the height."
                " Non-trivial: every program with a segment of measurable duration."),
    "C24": dict(gen=c24_gen, check=c24_check, n={"quick": 56000, "thorough": 200000}, chunk=100, noshrink=True, need={"algebra": 50000, "segment_queries": 5000, "refused": 20000, "plain_operands": 5000},
                rule="Random vectors (zeros, integers, magnitudes 1e-9..1e6), scalars of all number types, and random segments; results are compared with plain arithmetic."
                " Non-trivial: every record."),
}
