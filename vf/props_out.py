"""C19-C22, C25, C26: written results, repetition, plots, command line."""

import builtins
import contextlib
import hashlib
import json
import locale
import math
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys

from . import gen, interp, plan, sut, traj
from .props_query import FW, K, near, program, start


def norm(v):
    return traj.norm3(v)


def reference(case, r, ctx):
    """Group the recorded trajectory by program line; -> Report or None when it cannot be."""
    st = interp.interpret(case["lines"], case["setup"])
    rep = traj.check(st, case["setup"]["firmware"], r.blocks)
    if rep.skip:
        ctx.skipped = rep.skip
        return None
    for t, m in rep.v:
        if t in ("path", "finite") and any(not g.segs and not g.dsegs for g in rep.groups or [None] if g is not None):
            ctx.bad("path", m)
            return None
    return rep


def same_trace(a, b, tol=0.0):
    """Differences of two recorded trajectories, None if equal."""
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} motions"
    for i, (x, y) in enumerate(zip(a, b)):
        if len(x) != len(y):
            return f"motion {i}: {len(x)} and {len(y)} segments"
        for s, q in zip(x, y):
            for u, w in zip((s.t0, s.t1, *s.p0, *s.p1, *s.v0, *s.v1), (q.t0, q.t1, *q.p0, *q.p1, *q.v0, *q.v1)):
                if not abs(u - w) <= tol * (1 + abs(w)):
                    return f"motion {i} at t={s.t0!r}/{q.t0!r}: {u!r} and {w!r}"
    return None


# ---------------------------------------------------------------- C19

def c19_gen(r, i, tier):
    c = program(r, i, sizes=(1, 6), weights={"retract": 3, "dwell": 1.5, "chain": 0.3}, p_ext=r.choice([0, 0.3, 0.7, 0.7, 1.0]))
    c["unit"] = r.choice([None, None, "SI", "inch"])
    c["call"] = r.choice([None, None, "SI", "SImm", "inch"])
    if r.random() < 0.3:  # hardly any filament
        L = c["lines"]
        for _ in range(r.randint(1, 3)):
            j = r.randint(0, len(L))
            L[j:j] = ["M83", f"G1 X{r.choice([-7.5, 12.25, 33])} E{r.choice([3e-11, 1e-10, 7e-10, 2e-9, 5e-8]):.12f}", r.choice(["M82", "M82", ""])]
    c["tol"] = r.choice([None, None, None, 0.0, 1e-12, 1e-6, 1e-3, 0.01, 0.3, 2.0])
    c["deep"] = r.random() < 0.2
    return c


def c19_check(case, ctx):
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series as aba

    r, segs = start(case, ctx, case.get("unit"))
    if r is None:
        return
    k = K[case.get("call") or case.get("unit") or "SImm"]
    d = sut.scratch()
    f = d / ("e/v/ev.inp" if case.get("deep") else "ev.inp")
    kw = {}
    if case.get("call"):
        kw["output_unit_system"] = case["call"]
    if case.get("tol") is not None:
        kw["tolerance"] = case["tol"]
    tol = case["tol"] if case.get("tol") is not None else 1e-12
    if not case.get("deep") and len(segs) % 3 == 0:  # an older file of that name
        f.write_text("0.0, 1.0, 2.0, 3.0, 1\n" * 4000)
    with sut.quiet():
        rows = aba(r.sim, filepath=str(f), **kw)
    text = f.read_text()
    shutil.rmtree(d / "e", ignore_errors=True)
    if not ctx.expect(isinstance(rows, tuple) and len(rows) >= 2 and all(len(x) == 5 for x in rows), "rows", f"{rows!r:.100}"):
        return
    ctx.count("rows", len(rows))
    # one row for the beginning and one for every change of the motion, nothing else
    exp = [(0.0, segs[0].p0)] + [(s.t1, s.p1) for s in segs]
    if not ctx.expect(len(rows) == len(exp), "rows", f"{len(rows)} rows for {len(segs)} segments"):
        return
    for j, (row, (t, p)) in enumerate(zip(rows, exp)):
        if not (abs(row[0] - t) <= 1e-9 * (1 + t) and near(row[1:4], [k * x for x in p[:3]], 1e-9)):
            ctx.bad("rows", f"row {j} is {row}, the trajectory is at {[k * x for x in p[:3]]} at t={t} (factor {k})")
            return
        push = (exp[j + 1][1][3] - p[3]) if j + 1 < len(exp) else 0.0
        if abs(push - tol) <= 1e-9 * tol + 1e-12 and push:
            ctx.count("undecided_flags")
            continue
        ctx.count("flag_on" if push > tol else "flag_off")
        if row[4] != (1 if push > tol else 0):
            ctx.bad("flag", f"row {j} at t={t}: flag {row[4]}, {push} of filament is pushed until the next row (tolerance {tol})")
            return
    # independent of the segmentation: flags against the program
    rep = reference(case, r, ctx)
    if rep is None:
        return
    times = [x[0] for x in rows]
    for g in rep.groups:
        if g.move is None or tol > 1e-9 or tol == 0 or not g.segs:  # without tolerance rounding noise counts
            continue
        de = g.move.b[3] - g.move.a[3]
        a, b = g.segs[0].t0, g.segs[-1].t1
        for j in range(len(rows) - 1):
            t0, t1 = times[j], times[j + 1]
            if t0 >= a - 1e-9 and t1 <= b + 1e-9 and t1 - t0 > 1e-5 and (abs(de) > 1e-5 or de == 0):
                if de == 0 and 0 < exp[j + 1][1][3] - exp[j][1][3] < 1e-13 * (10 + abs(exp[j][1][3])):
                    ctx.count("rounding_only")
                    continue  # the rounding of an extruder position far from 0 is above the tolerance
                ctx.count("flags_of_moves")
                if rows[j][4] != (1 if de > 0 else 0) and not (j and t1 - t0 < 1e-4):
                    ctx.bad("flag", f"row {j} within line {g.line} (extrusion {de}) has flag {rows[j][4]}")
                    return
        if not any(abs(t - b) <= 1e-9 * (1 + b) and near(x[1:4], [k * y for y in g.move.b[:3]], traj.TP) for t, x in zip(times, rows)):
            ctx.bad("rows", f"no row for the end of line {g.line} at {g.move.b} (t={b})")
            return
    # the file holds the same series
    lines = text.split("\n")
    ctx.expect(lines[-1] == "" and len(lines) - 1 == len(rows), "file", f"file has {len(lines) - 1} lines for {len(rows)} rows")
    for row, ln in zip(rows, lines):
        w = ln.split(",")
        ok = len(w) == 5
        if ok:
            v = [float(x) for x in w]
            ok = abs(v[0] - row[0]) <= 1e-9 * (1 + row[0]) and all(abs(a - b) <= 0.5001e-8 + 1e-15 * abs(b) for a, b in zip(v[1:4], row[1:4])) and w[4].strip() == str(row[4])
            ok = ok and all(x == round(x, 8) for x in v[1:4])
        ctx.count("file_lines")
        if not ok:
            ctx.bad("file", f"line {ln!r} for {row}")
            return


# ---------------------------------------------------------------- C20

def c20_gen(r, i, tier):
    cue = r.choice(["LAYER_CHANGE", "LAYER", "AFTER_LAYER", "layer change"])
    c = program(r, i, sizes=(1, 6), weights={"layer": 7, "dwell": 1.5, "retract": 1, "chain": 0.2}, cue=cue, must=["layer"] * r.choice([0, 0, 0, 0, 2, 2, 5, 5, 30]))
    L = c["lines"]
    c["cue"] = cue
    if i % 300 == 99:  # a tall part
        for j in range(r.choice([150, 300, 600, 1100])):
            L += [";" + cue, f"G0 Z{0.2 * j:.1f} F9000", f"G1 X{r.randint(-9, 9)} Y{r.randint(-9, 9)} E{j * 0.1:.2f}"][: r.choice([1, 3, 3, 3, 3])]
    k = r.random()
    for _ in range(r.choice([0, 0, 1, 2, 4])):  # cues anywhere: first, last, empty layers, on lines of moves
        j = r.choice([0, len(L), r.randint(0, len(L))])
        L[j:j] = [";" + cue] * r.choice([1, 1, 2])
    if k < 0.3:
        for j, s in enumerate(L):
            if ";" not in s and s.strip().startswith(("G1", "G0", "G4")) and r.random() < 0.2:
                L[j] = s + " ;" + cue
    c["nocue"] = r.random() < 0.07
    c["unit"] = r.choice([None, None, "SI", "inch"])
    c["delim"] = r.choice([";", ",", "|", "\t", None])
    c["locale"] = r.choice([None, "C", "C.utf8"])
    c["file"] = r.random() < 0.85
    return c


def c20_check(case, ctx):
    from pyGCodeDecode.tools import save_layer_metrics

    case = dict(case, setup=dict(case["setup"]))
    if case.get("nocue"):
        case["setup"].pop("layer_cue", None)
    r, segs = start(case, ctx, case.get("unit"))
    if r is None:
        return
    d = sut.scratch()
    f = d / "lm" / "x" / "m.csv" if case.get("file") else None
    kw = {"delimiter": case["delim"]} if case.get("delim") else {}
    if f is not None and not case.get("nocue") and len(segs) % 3 == 0:  # an older file of that name
        f.parent.mkdir(parents=True)
        f.write_text("old; 1; 2; 3\n" * 300)
    old = locale.setlocale(locale.LC_ALL)
    try:
        with sut.quiet():
            res = save_layer_metrics(simulation=r.sim, filepath=f, locale=case.get("locale"), **kw)
    finally:
        locale.setlocale(locale.LC_ALL, old)
    text = f.read_text() if f is not None and f.exists() else None
    shutil.rmtree(d / "lm", ignore_errors=True)
    if case.get("nocue"):
        ctx.count("without_cue")
        ctx.expect(res is None and text is None, "no_cue", f"without a layer cue the metrics are {res!r:.200}, file {text!r:.100}")
        return
    rep = reference(case, r, ctx)
    if rep is None:
        return
    if not ctx.expect(isinstance(res, tuple) and len(res) == 4 and len({len(x) for x in res}) == 1, "result", f"{res!r:.200}"):
        return
    layers, dur, dist, avg = res
    # expected: per layer with motion
    exp = {}
    order = []
    for g in rep.groups:
        ss = g.segs + g.dsegs
        if g.layer not in exp:
            exp[g.layer] = [ss[0].t0, ss[-1].t1, 0.0]
            order.append(g.layer)
        exp[g.layer][1] = ss[-1].t1
        if g.move is not None:
            exp[g.layer][2] += math.dist(g.move.a[:3], g.move.b[:3])
    end = segs[-1].t1
    total = sum(math.dist(s.p0[:3], s.p1[:3]) for s in segs)
    ctx.count("layers", len(order))
    ctx.count("prints")
    ctx.expect(all(a < b for a, b in zip(layers, layers[1:])), "order", f"layers {layers}")
    ctx.expect(abs(sum(dur) - end) <= 1e-9 * (1 + end), "total_time", f"layer times {dur} add up to {sum(dur)}, the print takes {end}")
    ctx.expect(abs(sum(dist) - total) <= traj.TP + 1e-9 * total, "total_distance", f"distances {dist} add up to {sum(dist)}, the path is {total} long")
    got = dict(zip(layers, zip(dur, dist, avg)))
    for la in order:
        if not ctx.expect(la in got, "missing", f"layer {la} has motion but no row (rows {layers})"):
            continue
        t, s, v = got[la]
        et, es = exp[la][1] - exp[la][0], exp[la][2]
        ctx.expect(abs(t - et) <= 1e-9 * (1 + end), "time", f"layer {la} takes {t}, in the trajectory {et}")
        ctx.expect(abs(s - es) <= traj.TP + 1e-9 * es, "distance", f"layer {la}: distance {s}, programmed {es}")
        if t > 1e-9:
            ctx.expect(not isinstance(v, str) and abs(v - s / t) <= 1e-9 * (1 + abs(v)), "speed", f"layer {la}: average speed {v}, {s} mm in {t} s")
    for la in layers:
        if la not in exp:
            t, s, v = got[la]
            ctx.count("empty_layers")
            ctx.expect(abs(t) <= 1e-9 and abs(s) <= 1e-9 and (v == "NaN" or v != v or v == 0), "empty", f"layer {la} has no motion, but a row {got[la]}")
    if f is None:
        ctx.expect(text is None, "file", "a file is written without being asked for")
        return
    if not ctx.expect(text is not None, "file", "no file was written"):
        return
    dl = case.get("delim") or ";"
    rows = [ln.split(dl) for ln in text.splitlines()]
    ctx.count("csv_rows", len(rows) - 1)
    if not ctx.expect(len(rows) == len(layers) + 1 and all(len(x) == 4 for x in rows), "file", f"{text!r:.300}"):
        return
    h = [x.strip() for x in rows[0]]
    ctx.expect(h[0] == "layer" and "time" in h[1] and "distance" in h[2] and "speed" in h[3], "header", f"header {rows[0]}")
    for row, vals in zip(rows[1:], zip(*res)):
        ok = all((x.strip() == v) if isinstance(v, str) else abs(float(x) - v) <= 1e-9 * (1 + abs(v)) for x, v in zip(row, vals))
        if not ctx.expect(ok, "file", f"row {row} for {vals}"):
            break


# ---------------------------------------------------------------- C21

def grid_program(r, i):
    """Moves between points of a grid: faces, edges and corners of boxes on the same grid are met exactly."""
    st = r.choice([1, 0.5, 5, 10])
    k = r.choice([2, 3, 4])
    g = lambda: f"{r.randint(0, k) * st:g}"
    L = [f"G1 X{g()} Y{g()} F{r.choice([900, 3000, 9000])}"]
    for _ in range(r.randint(2, 14)):
        q = r.random()
        w = [a + g() for a in r.choice(["X", "Y", "Z", "XY", "XY", "XY", "XYZ"])]
        if q < 0.1:
            w = r.choice([["E1"], ["P20"]])
        elif r.random() < 0.5:
            w.append(f"E{r.choice([0.1, 0.5, 2])}")
        L.append(" ".join((["G4"] if w[0][0] == "P" else [r.choice(["G0", "G1", "G1"])]) + w))
    return {"lines": L, "setup": dict(gen.gen_setup(r, FW[i % len(FW)], None), X=r.choice([0, 0, st, -st]), Y=r.choice([0, st]), Z=r.choice([0, 0, st]), E=0), "grid": True, "refresh": 0}


def c21_gen(r, i, tier):
    if r.random() < 0.25:
        c = grid_program(r, i)
        c.update(boxes=r.randrange(1 << 30), extra={}, file=False, unit=r.choice([None, None, "SI", "inch"]))
        return c
    c = program(r, i, sizes=(1, 6), weights={"zigzag": 3, "polygon": 3, "corner": 2, "dwell": 1, "retract": 1, "reverse": 2})
    if r.random() < 0.25:  # moves almost parallel to an axis
        was = list(c["lines"])
        L = c["lines"]
        j = r.randint(0, len(L))
        L[j:j] = ["G91"] + [f"G1 X{r.choice([5, -8, 0.5])} Y{r.choice([3e-7, -4e-7, 2e-6, 3e-5, 0])} Z{r.choice([3e-7, 1e-6, 2e-4, 0])}".replace("e-07", "e-7") for _ in range(r.randint(1, 4))] + ["G90"]
        for q, s in enumerate(L):
            if "e-" in s and ";" not in s:
                L[q] = " ".join(w[0] + f"{float(w[1:]):.8f}" if "e-" in w else w for w in s.split())
        if gen.valid(c) is None:  # the shift left a later move the length of a rounding error
            c["lines"] = was
    c["boxes"] = r.randrange(1 << 30)
    c["extra"] = r.choice([{}, {"name": "part"}, {"a": 1, "b": [1, 2]}])
    c["file"] = r.random() < 0.8
    c["unit"] = r.choice([None, None, "SI", "inch"])
    return c


def clip(a, b, lo, hi):
    """Fractions at which the straight line a-b enters and leaves the box, or None."""
    f0, f1 = -math.inf, math.inf
    for x, y, l, h in zip(a, b, lo, hi):
        d = y - x
        if d == 0:
            if not l <= x <= h:
                return None
            continue
        u, w = (l - x) / d, (h - x) / d
        f0, f1 = max(f0, min(u, w)), min(f1, max(u, w))
    return (f0, f1)


def general(moves, lo, hi, eps=1e-7):
    """True if no corner of the path touches a face plane and no line touches an edge of the box."""
    for a, b in moves:
        for p in (a, b):
            for x, l, h in zip(p, lo, hi):
                if abs(x - l) < eps / 5 or abs(x - h) < eps / 5:
                    return False
        # planes are crossed at distinct places of the move
        ln = math.dist(a, b)
        fs = sorted((p - x) / (y - x) for x, y, l, h in zip(a, b, lo, hi) if y != x for p in (l, h) if 0 <= (p - x) / (y - x) <= 1)
        if any((q - p) * ln < eps for p, q in zip(fs, fs[1:])):
            return False
        for f in fs:  # crossing points are clear of the edges of the faces
            X = [x + f * (y - x) for x, y in zip(a, b)]
            if sum(1 for x, l, h in zip(X, lo, hi) if abs(x - l) < eps or abs(x - h) < eps) != 1:
                return False
    return True


def time_at(segs, a, b, f):
    """The instant at which the move a-b is at fraction f of its way."""
    u = [q - p for p, q in zip(a, b)]
    n2 = sum(x * x for x in u)
    fr = lambda t: max(sum((x - y) * z for x, y, z in zip(p[0], a, u)) / n2 for p in traj.at(segs, t))
    lo, hi = segs[0].t0, segs[-1].t1
    for _ in range(80):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if fr(m) < f else (lo, m)
    return hi


def c21_grid(case, ctx, r, segs, moves):
    """Boxes whose faces contain corners of the path or whose edges are met: every reported time lies on the surface, entries and exits
    alternate and tell inside from outside wherever the path is clear of the surface. Whether the surface belongs to the box is left open."""
    from pyGCodeDecode.tools import write_submodel_times

    rnd = random.Random(case["boxes"])
    eps = 1e-7
    vals = [sorted({p[i] for _, a, b in moves for p in (a, b)}) for i in range(3)]
    p0 = segs[0].p0[:3]
    for _ in range(6):
        lo, hi = [], []
        for v in vals:
            st = max(v[-1] - v[0], 1) / 4
            c = list(v) + [v[0] - st, v[-1] + st] + [(x + y) / 2 for x, y in zip(v, v[1:])]
            x, y = rnd.choice(c), rnd.choice(c)
            while y <= x:
                x, y = min(x, y), rnd.choice(c) if rnd.random() < 0.9 else x + st
            lo.append(x)
            hi.append(y)
        with sut.quiet():
            res = write_submodel_times(r.sim, [(x + y) / 2 for x, y in zip(lo, hi)], *[y - x for x, y in zip(lo, hi)], filename=None)
        where = f"box {lo}..{hi} on the grid of the path"
        ctx.count("grid_boxes")
        ti, to = res["time_in"], res["time_out"]
        ctx.count("grid_events", len(ti) + len(to))
        ctx.expect(res["n_filaments"] == len(ti), "n_filaments", f"n_filaments {res['n_filaments']} for {len(ti)} entries")
        on = lambda P, e=eps: all(l - e <= x <= h + e for x, l, h in zip(P, lo, hi)) and any(min(abs(x - l), abs(x - h)) <= e for x, l, h in zip(P, lo, hi))
        strictly = lambda P: all(l < x < h for x, l, h in zip(P, lo, hi))
        for key, lst in (("time_in", ti), ("time_out", to)):
            if not ctx.expect(all(x < y for x, y in zip(lst, lst[1:])), "twice", f"{where}: {key} {lst}"):
                return
            for t in lst:
                P = [p[0][:3] for p in traj.at(segs, t)]
                if not any(on(p, 1e-6) for p in P):
                    ctx.bad(key, f"{where}: {key} {t}, but the nozzle is at {P} then")
                    return
        tt = 1e-9 * (1 + segs[-1].t1)  # a mere touch enters and leaves at once
        starts = [0, 1] if on(p0) else [int(strictly(p0))]
        probes = []
        for g, a, b in moves:
            ln = math.dist(a, b)
            fs = sorted({0.0, 1.0} | {(p - x) / (y - x) for x, y, l, h in zip(a, b, lo, hi) if abs(y - x) > eps for p in (l, h) if 0 < (p - x) / (y - x) < 1})
            for f0, f1 in zip(fs, fs[1:]):
                f = (f0 + f1) / 2
                P = [x + f * (y - x) for x, y in zip(a, b)]
                if (f1 - f0) * ln > 1e-3 and not on(P, 1e-5):
                    probes.append((time_at(g.segs, a, b, f), P, strictly(P)))
        ctx.count("instants", len(probes))
        ok = []
        for n0 in starts:
            first, second = (to, ti) if n0 else (ti, to)
            alt = len(first) - len(second) in (0, 1) and all(x <= y + tt for x, y in zip(first, second)) and all(x <= y + tt for x, y in zip(second, first[1:]))
            bad = next(((t, P, s) for t, P, s in probes if n0 + sum(x <= t for x in ti) - sum(x <= t for x in to) != s), None)
            ok.append((alt, bad))
        if not any(alt and bad is None for alt, bad in ok):
            alt, bad = ok[0]
            ctx.bad("count" if bad else "alternate", f"{where}: in {ti} out {to}" + (f", but at t={bad[0]} the nozzle is {'inside' if bad[2] else 'outside'} at {bad[1]}" if bad else " do not alternate"))
            return


def c21_check(case, ctx):
    import yaml
    from pyGCodeDecode.tools import write_submodel_times

    r, segs = start(case, ctx, case.get("unit"))
    if r is None:
        return
    rep = reference(case, r, ctx)
    if rep is None:
        return
    moves = [(g, g.move.a[:3], g.move.b[:3]) for g in rep.groups if g.move is not None and not g.move.eonly and g.segs]
    if not moves:
        ctx.trivial = True
        return
    if case.get("grid"):
        return c21_grid(case, ctx, r, segs, moves)
    rnd = random.Random(case.get("boxes", 1))
    pts = [p for _, a, b in moves for p in (a, b)]
    mn, mx = [min(p[i] for p in pts) for i in range(3)], [max(p[i] for p in pts) for i in range(3)]
    d = sut.scratch()
    done = 0
    for _ in range(20):
        k = rnd.random()
        if k < 0.8:  # around some place of the path
            _, a, b = rnd.choice(moves)
            f = rnd.random()
            c = [x + f * (y - x) for x, y in zip(a, b)]
        else:
            c = [rnd.uniform(x - 2, y + 2) for x, y in zip(mn, mx)]
        orig = [x + rnd.uniform(-0.3, 0.3) * (1 if k < 0.8 else 0.2 * max(0.1, b - a)) for x, a, b in zip(c, mn, mx)]
        side = [rnd.choice([0.7, 2, 10, 40]) * rnd.uniform(0.7, 1.3) if rnd.random() < 0.7 else max(0.4, (b - a) * rnd.uniform(0.3, 1.3)) for a, b in zip(mn, mx)]
        j = rnd.random()
        if j < 0.25:  # an edge of the box shaves a move, inside or outside
            _, a, b = rnd.choice(moves)
            f = rnd.uniform(0.1, 0.9)
            c = [x + f * (y - x) for x, y in zip(a, b)]
            u = [y - x for x, y in zip(a, b)]
            ij = [q for q in ((0, 1), (0, 2), (1, 2)) if u[q[0]] and u[q[1]]]
            if ij:
                p, q = rnd.choice(ij)
                n = [-u[q], u[p]] if rnd.random() < 0.5 else [u[q], -u[p]]
                nn = math.hypot(*n)
                dl = 10 ** rnd.uniform(-5.5, -1) * rnd.choice([1, 1, -1])
                for ax, nx in ((p, n[0] / nn), (q, n[1] / nn)):
                    orig[ax] = c[ax] + dl * nx + math.copysign(side[ax] / 2, nx)
                ctx.count("shaved_edges")
        elif j < 0.5:  # a face between the ends of a move that hardly changes this coordinate
            small = sorted((abs(y - x), i, ax) for i, (_, a, b) in enumerate(moves) for ax, (x, y) in enumerate(zip(a, b)) if x != y)
            _, i, ax = small[min(len(small) - 1, int(rnd.expovariate(0.5)))]
            _, a, b = moves[i]
            f = rnd.uniform(0.1, 0.9)
            c = [x + f * (y - x) for x, y in zip(a, b)]
            orig = [x + rnd.uniform(-0.3, 0.3) for x in c]
            orig[ax] = c[ax] + rnd.choice([-1, 1]) * side[ax] / 2
            ctx.count("shallow_faces")
        elif j < 0.62:  # centred on a plane of the machine's coordinate system
            for ax in rnd.sample(range(3), rnd.choice([1, 1, 2, 3])):
                orig[ax] = rnd.choice([0, 0.0, -0.0])
                side[ax] = max(0.4, 2 * abs(c[ax]) * rnd.uniform(0.6, 1.5))
            ctx.count("centred_on_zero")
        elif j < 0.7:  # whole numbers
            orig, side = [round(x) for x in orig], [max(1, round(x)) for x in side]
            ctx.count("whole_numbers")
        lo, hi = [o - s / 2 for o, s in zip(orig, side)], [o + s / 2 for o, s in zip(orig, side)]
        if not general([(a, b) for _, a, b in moves], lo, hi):
            continue
        done += 1
        ins, outs = [], []
        for g, a, b in moves:
            f = clip(a, b, lo, hi)
            if f is None or f[0] > f[1]:
                continue
            for x, lst in ((f[0], ins), (f[1], outs)):
                if 0 < x < 1:
                    lst.append((g, [p + x * (q - p) for p, q in zip(a, b)]))
        fn = d / "sub.yaml" if case.get("file") else None
        if fn is not None and done % 3 == 0:  # an older file of that name
            fn.write_text("older: 1\ntime_in: [1, 2]\n" * 20)
        with sut.quiet():
            res = write_submodel_times(r.sim, orig, side[0], side[1], side[2], filename=fn, **case["extra"])
        ctx.count("boxes")
        ctx.count("crossings", len(ins) + len(outs))
        ctx.count("uncrossed", not (ins or outs))
        where = f"box {[round(x, 4) for x in lo]}..{[round(x, 4) for x in hi]}"
        for key, lst in (("time_in", ins), ("time_out", outs)):
            got = res[key]
            if not ctx.expect(isinstance(got, list) and len(got) == len(lst), key, f"{where}: {len(got)} times in {key}, the path crosses {len(lst)} times"):
                return
            if not ctx.expect(all(x <= y for x, y in zip(got, got[1:])), "order", f"{key} {got}"):
                return
            for t, (g, X) in zip(got, lst):
                P = traj.at(g.segs, t)
                # the place of a shallow crossing is known less exactly
                shallow = min(abs(x - y) for x, y in zip(g.a[:3], g.b[:3]) if x != y)
                if not any(math.dist(p[0][:3], X) <= 1e-7 + 1e-12 / shallow * math.dist(g.a[:3], g.b[:3]) for p in P):
                    ctx.bad(key, f"{where}: {key} {t}, but line {g.line} is at {[p[0][:3] for p in P]} then, the crossing is at {X}")
                    return
        # counting crossings tells inside from outside at any time
        inside0 = all(l < x < h for x, l, h in zip(segs[0].p0, lo, hi))
        for t in [rnd.uniform(0, segs[-1].t1) for _ in range(6)]:
            p = traj.at(segs, t)[0][0]
            if any(min(abs(x - l), abs(x - h)) < 1e-6 for x, l, h in zip(p, lo, hi)):
                continue
            n = inside0 + sum(x <= t for x in res["time_in"]) - sum(x <= t for x in res["time_out"])
            ctx.count("instants")
            ctx.expect(n == all(l < x < h for x, l, h in zip(p, lo, hi)), "count", f"{where}: at t={t} {p[:3]}, the times say {'inside' if n else 'outside'}")
        ctx.expect(res["n_filaments"] == len(res["time_in"]), "n_filaments", f"n_filaments {res['n_filaments']} for {len(res['time_in'])} entries")
        ctx.expect(abs(res["time_process"] - segs[-1].t1) <= 1e-9 * (1 + segs[-1].t1), "time_process", f"time_process {res['time_process']}, the print ends at {segs[-1].t1}")
        ctx.expect(all(res.get(q) == v for q, v in case["extra"].items()), "extra", f"additional information {case['extra']} is missing in {sorted(res)}")
        if fn is not None:
            if not ctx.expect(fn.exists(), "file", "no file"):
                return
            y = yaml.safe_load(fn.read_text())
            ctx.expect(y == res, "file", f"file {y!r:.300} but returned {res!r:.300}")
            fn.unlink()
            ctx.count("files")
        if done >= 4:
            break
    ctx.trivial = not done


# ---------------------------------------------------------------- C22

def c22_gen(r, i, tier):
    c = program(r, i, sizes=(1, 5), weights={"layer": 1.5, "chain": 0.2, "dwell": 1}, cue="LAYER")
    o = gen.gen_case(r, firmware=c["setup"]["firmware"], size=r.randint(1, 4))
    c["other"] = o["lines"]
    c["ops"] = [r.choice(["refresh", "values", "outputs", "other_sim", "property", "new_states", "refresh", "position", "cue", "printer", "same_lines"]) for _ in range(r.randint(2, 6))]
    c["prop"] = r.choice([{"p_acc": 123}, {"jerk": 3.5}, {"p_vel": 17}, {"firmware": r.choice(FW)}, {"p_acc": 77, "jerk": 2, "firmware": r.choice(FW)}])
    return c


def r_frac(case):
    return (len(case["lines"]) % 7 + 1) * 1e-3


def c22_check(case, ctx):
    import yaml
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series as aba
    from pyGCodeDecode.tools import save_layer_metrics, write_submodel_times

    gi = sut.modules()
    d = sut.scratch()
    g, y = sut.write_inputs(case, "c22")
    og, _ = sut.write_inputs({"lines": case["other"], "setup": case["setup"]}, "c22o")
    base = {k: case["setup"][k] for k in sut.SETUP_KEYS if k in case["setup"]}
    alt = dict(base, p_acc=321, jerk=6.25)
    y.write_text(yaml.safe_dump({"vfprinter": base, "second": alt}), encoding="utf-8")
    with sut.quiet():
        s = gi.setup(presets_file=y, printer="vfprinter", layer_cue="LAYER")
        ip = tuple(case["setup"].get(a, 0) for a in "XYZE")
        s.set_initial_position(ip)
        try:
            sim = gi.simulation(gcode_path=g, initial_machine_setup=s)
        except Exception as e:  # noqa: BLE001
            ctx.bad("crash", f"{type(e).__name__}: {e}")
            return
        first = sut.trace(sim)
        metrics = None
        # what a completely separate run gives
        s2 = gi.setup(presets_file=y, printer="vfprinter", layer_cue="LAYER")
        s2.set_initial_position(ip)
        again = gi.simulation(gcode_path=g, initial_machine_setup=s2)
        diff = same_trace(sut.trace(again), first)
        ctx.count("repetitions")
        if not ctx.expect(diff is None, "determinism", f"same program, same setup: {diff}"):
            return
        exp = first
        prog_states = sim.states
        cur = "vfprinter"
        for op in case["ops"]:
            ctx.count(op)
            before = sut.trace(sim)
            if op == "refresh":
                sim.refresh()
            elif op == "new_states":
                import pyGCodeDecode.state_generator as sg

                st = sg.generate_states(filepath=og, initial_machine_setup=s2.get_dict())
                sim.refresh(new_state_list=st)
                ref = gi.simulation(gcode_path=og, initial_machine_setup=s2)
                diff = same_trace(sut.trace(sim), sut.trace(ref))
                ctx.expect(diff is None, "new_states", f"refresh with the states of another program: {diff}")
                sim.refresh()
                diff = same_trace(sut.trace(sim), sut.trace(ref))
                ctx.expect(diff is None, "new_states", f"second refresh: {diff}")
                end = sut.trace(ref)[-1][-1].t1
                v, p = sim.get_values(t=end)
                ctx.expect(near(p, sut.trace(ref)[-1][-1].p1, 1e-6), "new_states", f"after the refresh get_values({end}) is at {p}")
                sim.refresh(new_state_list=prog_states)
            elif op == "same_lines":  # the same program planned for a slightly different printer, queried in between
                import pyGCodeDecode.state_generator as sg

                k = 1 + r_frac(case)
                s4 = gi.setup(presets_file=y, printer="vfprinter", layer_cue="LAYER")
                s4.set_initial_position(ip)
                s4.set_property({"p_acc": base["p_acc"] * k, "p_vel": base["p_vel"] * k})
                sim.get_values(t=0.3 * first[-1][-1].t1)
                sim.refresh(new_state_list=sg.generate_states(filepath=g, initial_machine_setup=s4.get_dict()))
                ref = gi.simulation(gcode_path=g, initial_machine_setup=s4)
                for q in (0.37, 0.9, 0.11, 1.0):
                    t = q * sut.trace(ref)[-1][-1].t1
                    ctx.expect(sim.get_values(t=t) == ref.get_values(t=t), "new_states", f"after the refresh with other states get_values({t}) differs from a new simulation")
                sim.refresh(new_state_list=prog_states)
                for q in (0.8, 0.2):
                    t = q * first[-1][-1].t1
                    ctx.expect(sim.get_values(t=t) == again.get_values(t=t), "isolation", f"get_values({t}) differs after going back to the first states")
            elif op == "values":
                end = first[-1][-1].t1
                for q in (0.5, 0.1, 1.0, 0.0):
                    sim.get_values(t=q * end)
            elif op == "outputs":
                for f in (sim.extrusion_extent, sim.extrusion_max_vel, lambda: sim.save_summary(d / "c22s.yaml"),
                          lambda: aba(sim, filepath=str(d / "c22.inp"), output_unit_system="SI"),
                          lambda: write_submodel_times(sim, [1.03, 1.07, 0.11], 3.1, 4.3, 2.7, filename=None)):
                    with contextlib.suppress(ValueError):
                        f()
                m = save_layer_metrics(sim, filepath=None, locale="C")
                if metrics is not None:
                    ctx.expect(repr(m) == repr(metrics), "metrics", f"layer metrics change from {metrics!r:.200} to {m!r:.200}")
                metrics = m
            elif op == "other_sim":
                gi.simulation(gcode_path=og, initial_machine_setup=s)
            elif op == "property":
                s.set_property(dict(case["prop"]))
            elif op == "position":
                s.set_initial_position((5.0, 6.0, 7.0, 8.0), input_unit_system="inch")
            elif op == "cue":
                s.set_property({"layer_cue": "other"})
            elif op == "printer":
                cur = "second" if cur == "vfprinter" else "vfprinter"
                s.select_printer(cur)
            now = sut.trace(sim)
            diff = same_trace(now, exp)
            ctx.count("comparisons")
            if not ctx.expect(diff is None, "isolation", f"after {op} (of {case['ops']}): {diff}"):
                return
            if op in ("property", "position", "cue", "printer", "other_sim"):
                sim.refresh()
                diff = same_trace(sut.trace(sim), exp)
                if not ctx.expect(diff is None, "isolation", f"refreshed after {op} (of {case['ops']}): {diff}"):
                    return
        # a further simulation is not influenced by the first one's life
        s3 = gi.setup(presets_file=y, printer="vfprinter", layer_cue="LAYER")
        s3.set_initial_position(ip)
        third = gi.simulation(gcode_path=g, initial_machine_setup=s3)
        diff = same_trace(sut.trace(third), first)
        ctx.expect(diff is None, "isolation", f"a later separate run differs: {diff}")
        # inputs are only read
        ctx.expect(yaml.safe_load(y.read_text()) == {"vfprinter": base, "second": alt}, "inputs", "the presets file changed")


PROBE = """
import sys, json, hashlib, locale, os
sys.path.insert(0, {root!r})
from vf import sut, gen, props_out
import random
sut.preload()
h = hashlib.sha256()
if os.environ.get("VF_LOCALE"):
    locale.setlocale(locale.LC_ALL, os.environ["VF_LOCALE"])
for i in range({n}):
    c = gen.gen_case(random.Random("c22:%s:%d" % ({seed}, i)), firmware=gen.FIRMWARES[i % 5], size=4, weights=dict(layer=4), cue=["LAYER", "Schicht für µ", "层"][i % 3])
    c["lines"][i % 2:i % 2] = ["; 60 \udcb0C", "; für Schicht \u2192 3"]
    c["printer"] = ["vfprinter", "Drücker", "打印机"][i % 3]
    r = sut.simulate(c)
    h.update((repr(r.error) + repr([x.layer for x in r.sim.states] if r.sim else 0) + repr([[(s.t0, s.t1, s.p0, s.p1, s.v0, s.v1) for s in b] for b in sut.trace(r.sim)] if r.sim else 0)).encode())
print("DIGEST", h.hexdigest())
"""


def c22_final(seed, tier, ctx):
    """Fresh interpreters with different hash seeds, locales and time zones agree bit for bit."""
    root = str(pathlib.Path(__file__).resolve().parent.parent)
    out = []
    envs = [{"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": "4242", "TZ": "Asia/Tokyo", "LC_ALL": "C"}, {"LANG": "C.utf8", "PYTHONUTF8": "0", "VF_LOCALE": "C"}] + ([{"PYTHONHASHSEED": str(k)} for k in (1, 2, 3)] if tier == "thorough" else [])
    for e in envs:
        p = subprocess.run([sys.executable, "-c", PROBE.format(root=root, n=15 if tier == "quick" else 60, seed=seed).encode("ascii", "backslashreplace").decode()], env=dict(os.environ, **e), capture_output=True, text=True, timeout=300)
        m = [ln for ln in p.stdout.splitlines() if ln.startswith("DIGEST")]
        if not m:
            ctx.bad("process", f"fresh process failed: {p.stderr[-300:]}")
            return
        out.append(m[0])
        ctx.count("processes")
    ctx.expect(len(set(out)) == 1, "process", f"fresh processes disagree: {out}")


# ---------------------------------------------------------------- C25

def c25_gen(r, i, tier):
    c = program(r, i, sizes=(1, 4), weights={"retract": 2, "dwell": 1, "chain": 0.1, "arc": 1}, p_ext=r.choice([0.3, 0.7, 1.0]))
    if i % 60 == 17:  # larger plots
        c = program(r, i, sizes=(8, 30), weights={"retract": 2, "layer": 4}, cue=r.choice([None, "LAYER"]), must=["random"])
    c["axis"] = r.choice([["x", "y", "z", "e"], ["x"], ["e", "x"], ["y", "z"], ["z", "y", "x", "e"]])
    c["steps"] = r.choice(["constrained", "constrained", 1, 2, 17, 101, 501, 1201])
    c["plots"] = r.choice(["vel", "mesh", "vel", "mesh", "both"])
    c["flags"] = [r.random() < 0.5 for _ in range(3)]
    c["extr"] = r.random() < 0.75
    c["save"] = r.random() < 0.25
    c["jv"] = r.random() < 0.12
    c["show"] = r.random() < 0.3
    c["unit"] = r.choice([None, None, None, "SI", "inch"])
    c["bad"] = r.choice(["auto", 3.0, None, "segment"])
    return c


def vel_plot(case, ctx, r, segs):
    import matplotlib.pyplot as plt

    d = sut.scratch()
    AX = {"x": 0, "y": 1, "z": 2, "e": 3}
    f = d / "vel.png" if case["save"] else None
    with sut.quiet():
        jv = bool(case.get("jv")) and len(r.blocks) <= 60
        JD = corner_notes(r)
        fig = r.sim.plot_vel(axis=tuple(case["axis"]), show=bool(case.get("show")), show_planner_blocks=case["flags"][0], show_segments=case["flags"][1], show_jv=jv,
                             time_steps=case["steps"], filepath=f, dpi=40)
        after = corner_notes(r)
    ctx.expect(JD == after, "purity", "plotting changes the corner velocities of a motion")
    if f is not None:
        ctx.expect(f.exists() and f.stat().st_size > 100, "file", "velocity plot was not saved")
        f.unlink(missing_ok=True)
    end = segs[-1].t1
    byl = {}
    for a in fig.axes:
        for ln in a.get_lines():
            byl.setdefault(ln.get_label(), ln)
    exp_t = [0.0] + [s.t1 for s in segs] if case["steps"] == "constrained" else [end * j / case["steps"] for j in range(case["steps"])]
    ctx.count("velocity_plots")
    if not ctx.expect(all(a in byl for a in case["axis"]) and "abs" in byl, "lines", f"curves {sorted(byl)} for axes {case['axis']}"):
        return
    # the position curves belong to the axes in the given order
    pos_axes = [a for a in fig.axes if "position" in a.get_ylabel()]
    if not ctx.expect(len(pos_axes) == 1 and len(pos_axes[0].get_lines()) == len(case["axis"]), "lines", "position curves"):
        return
    curves = [(byl[a], AX[a], 1) for a in case["axis"]] + [(ln, AX[a], 0) for a, ln in zip(case["axis"], pos_axes[0].get_lines())] + [(byl["abs"], None, 1)]
    gap = [max(abs(x) for x in v) for v in ([s.v0 + s.v1 for s in segs])]
    vm = 1 + max(gap)
    for ln, ax, der in curves:
        xs, ys = [float(x) for x in ln.get_xdata()], [float(x) for x in ln.get_ydata()]
        if not ctx.expect(len(xs) == len(exp_t) and near(xs, exp_t, 1e-9), "times", f"{len(xs)} plotted instants, expected {len(exp_t)}"):
            return
        for t, yv in zip(xs, ys):
            cand = traj.at(segs, min(t, end))
            vals = [(norm(c[1]) if ax is None else c[1][ax]) if der else c[0][ax] for c in cand]
            ctx.count("plotted_values")
            if not any(abs(yv - v) <= (1e-8 * vm if der else 1e-8 * (1 + 1e-3 * vm)) for v in vals) and not (der and any(abs(t - s.t0) < 1e-9 * (1 + t) and s.t1 - s.t0 < 1e-6 for s in segs)):
                ctx.bad("curve", f"{'velocity' if der else 'position'} curve of axis {ax} shows {yv} at t={t}, the trajectory has {vals}")
                return
    # markers stand at the ends of motions and of pieces, if asked for, and nowhere else
    marks = sorted(float(ln.get_xdata()[0]) for ln in fig.axes[0].get_lines() if len(ln.get_xdata()) == 2 and ln.get_xdata()[0] == ln.get_xdata()[1] and ln.get_label().startswith("_"))
    for lc in fig.axes[0].collections:  # whether drawn as lines or as a collection of lines
        if hasattr(lc, "get_segments"):
            marks += [float(q[0][0]) for q in lc.get_segments() if len(q) == 2 and q[0][0] == q[1][0]]
    want = sorted(([b[-1].t1 for b in r.blocks] if case["flags"][0] else []) + ([s.t1 for s in segs] if case["flags"][1] else []))
    ctx.count("markers", len(marks))
    ctx.expect(all(any(abs(x - m) <= 1e-9 * (1 + m) for m in marks) for x in want), "markers", "an end of a motion or piece is not marked")
    ctx.expect(all(any(abs(x - m) <= 1e-9 * (1 + m) for x in want) for m in marks), "markers", f"markers {marks[:5]}..., asked for {want[:5]}...")
    if jv:
        offs = [(float(x), float(y)) for pc in fig.axes[0].collections if not hasattr(pc, "get_segments") for x, y in np_offsets(pc)]
        ends = [b[-1].t1 for b in r.blocks]
        ctx.count("corner_markers", len(offs))
        ctx.expect(all(any(abs(x - m) <= 1e-9 * (1 + m) for m, _ in offs) for x in ends) and all(any(abs(x - m) <= 1e-9 * (1 + m) for x in ends) for m, _ in offs),
                   "markers", "corner speeds are not marked at the ends of the motions")
        for b in r.blocks:  # at least the speed at which the corner is passed
            top = max((y for x, y in offs if abs(x - b[-1].t1) <= 1e-9 * (1 + x)), default=0.0)
            ctx.expect(top >= norm(b[-1].v1) - 1e-6 * vm, "markers", f"corner speed {top} is marked at {b[-1].t1}, passed with {norm(b[-1].v1)}")
    try:
        with sut.quiet():
            r.sim.plot_vel(show=False, time_steps=case["bad"])
        ctx.bad("accepted", f"time_steps={case['bad']!r} is accepted")
    except ValueError:
        ctx.count("refused")
    plt.close("all")


def corner_notes(r):  # what a motion says about its corner, if it says anything
    out = []
    for b in r.sim.blocklist:
        jd = getattr(b, "JD", None)
        out.append(None if jd is None else [float(x) for x in (jd.get_vec(withExtrusion=True) if hasattr(jd, "get_vec") else jd)])
    return out


def np_offsets(pc):
    import numpy as np

    return np.asarray(pc.get_offsets(), dtype=float).reshape(-1, 2)


def seg_dist(P, a, b):
    """Distances of the points P from the straight line piece a-b."""
    import numpy as np

    d = b - a
    q = float(d @ d)
    f = np.clip(((P - a) @ d) / q, 0, 1) if q else np.zeros(len(P))
    return np.linalg.norm(P - (a + f[:, None] * d), axis=1)


def mesh_plot(case, ctx, r, segs):
    import numpy as np
    import pyvista as pv

    only = case["extr"]
    use = [s for s in segs if not only or s.p1[3] > s.p0[3]]
    edges = [s for s in use if math.dist(s.p0[:3], s.p1[:3]) > 5e-4]
    if not edges:
        ctx.count("nothing_to_draw")
        return
    d = sut.scratch()
    f = d / "m.vtk"
    shot = d / "m.png"
    with sut.quiet():
        if len(segs) % 3 == 0 and (only or any(s.p1[3] > s.p0[3] and math.dist(s.p0[:3], s.p1[:3]) > 5e-4 for s in segs)):  # an earlier plot of another selection leaves no trace
            r.sim.plot_3d(extrusion_only=not only, screenshot_path=shot)
            if len(segs) % 2:
                r.sim.refresh()
        mesh = r.sim.plot_3d(extrusion_only=only, screenshot_path=shot, vtk_path=f)
        P, V = np.asarray(mesh.points, dtype=float), np.asarray(mesh["velocity"], dtype=float)
        other = mesh.copy()
        other.points = P + 1.0
        m2 = r.sim.plot_3d(mesh=other, screenshot_path=shot, extrusion_only=len(segs) % 2 == 0)
        back = pv.read(f)
    f.unlink(missing_ok=True)
    ctx.count("meshes")
    ctx.count("edges", len(edges))
    scale = 1e-4 + 1e-6 * float(np.abs(P).max())
    vt = 1e-3 * (1 + max(max(norm(s.v0), norm(s.v1)) for s in use))
    ctx.expect(len(V) == len(P) and np.isfinite(P).all() and np.isfinite(V).all(), "mesh", "one finite velocity per point")
    ctx.expect(m2.n_points == len(P) and np.allclose(np.asarray(m2.points), P + 1, atol=scale) and np.allclose(np.asarray(m2["velocity"]), V, atol=vt), "reuse", "a mesh that was handed in is not the one shown and returned")
    ctx.expect(np.asarray(back.points).shape == P.shape and np.allclose(np.asarray(back.points), P, atol=scale) and np.allclose(np.asarray(back["velocity"]), V, atol=vt), "vtk",
               "the VTK file does not hold the returned mesh")
    E = [(np.array(s.p0[:3]), np.array(s.p1[:3]), norm(s.v0), norm(s.v1)) for s in edges]
    # every extruding piece of the path is covered, with its velocities
    for a, b, v0, v1 in E:
        for X, v, what in ((a, v0, "begin"), (b, v1, "end")):
            dist = np.linalg.norm(P - X, axis=1)
            near_ = dist < 0.2 + 0.002 + scale
            if not near_.any():
                ctx.bad("covered", f"the path at {X.tolist()} ({what} of an {'extruding ' if only else ''}piece to {b.tolist()}) is not drawn")
                return
            if not (np.abs(V[near_] - v) <= vt).any():
                ctx.bad("velocity", f"at {X.tolist()} the colour shows {sorted(set(V[near_].round(3).tolist()))[:6]}, the velocity is {v}")
                return
    # nothing else is drawn
    cells = [np.asarray(P[list(c.point_ids)]).mean(axis=0) for c in mesh.cell] if mesh.n_cells < 4000 else []
    C = np.array(cells) if cells else np.zeros((0, 3))
    for Q, what in ((P, "point"), (C, "cell")):
        if not len(Q):
            continue
        best = np.full(len(Q), np.inf)
        for s in use:
            best = np.minimum(best, seg_dist(Q, np.array(s.p0[:3]), np.array(s.p1[:3])))
        ctx.count(what + "s_checked", len(Q))
        if best.max() > 0.2 + 0.01 + scale:
            j = int(best.argmax())
            ctx.bad("extra", f"a {what} of the mesh at {Q[j].tolist()} is {best[j]} mm away from every {'extruding ' if only else ''}piece of the path")
            return
    # velocities between the ends of the pieces at hand
    lo, hi = min(min(norm(s.v0), norm(s.v1)) for s in use) - vt, max(max(norm(s.v0), norm(s.v1)) for s in use) + vt
    ctx.expect(V.min() >= lo and V.max() <= hi, "velocity", f"colours from {V.min()} to {V.max()}, velocities from {lo} to {hi}")


def c25_check(case, ctx):
    r, segs = start(case, ctx, case.get("unit"))
    if r is None:
        return
    os.environ.pop("DISPLAY", None)
    if case["plots"] in ("vel", "both"):
        vel_plot(case, ctx, r, segs)
    if case["plots"] in ("mesh", "both"):
        mesh_plot(case, ctx, r, segs)
    diff = same_trace(sut.trace(r.sim), r.blocks)
    ctx.expect(diff is None, "purity", f"plotting changed the trajectory: {diff}")


# ---------------------------------------------------------------- C26

def c26_gen(r, i, tier):
    cue = r.choice(["LAYER", "LAYER_CHANGE", "layer 1"])
    kind = ["full", "default_printer", "default_presets", "all_default", "autofind", "prompt_yes", "prompt_no", "no_cue", "bad_gcode", "bad_presets", "none_found", "many_found",
            "bad_printer", "full", "prompt_yes_bad_printer", "prompt_yes_bad_presets", "no_default_printer", "dir_gcode"][i % 18]
    if i % 50 in (7, 32):
        kind = "example_benchy" if i % 50 == 7 else "example_brace"
    if kind == "example_benchy":
        cue = "LAYER_CHANGE"
    c = program(r, i, sizes=(1, 4), weights={"layer": 4, "chain": 0.1}, cue=cue, p_ext=1.0, must=["polygon"] + ["layer"] * r.choice([0, 1, 3]))
    c.update(kind=kind, cue=cue, stem=r.choice(["part", "my part", "a.b", "Ü"]), out=r.choice(["o", "deep/er/out", "abs"]), short=r.random() < 0.5,
             answers=r.choice([[], ["maybe", ""], ["yess"]]), yes=r.choice(["y", "yes", "Y", "YES"]), no=r.choice(["n", "no", "N"]),
             preset=r.choice(["prusa_mini", "anisoprint_a4", "prusa_mini_klipper", "debugging"]), bare=r.random() < 0.4,
             older=r.choice([None, None, "empty", "other", "same", "both"]), suffix=r.choice([".gcode", ".gcode", ".gco", ".txt", ""]), relative=r.random() < 0.4,
             preset_cue=r.choice([None, None, cue, "other cue"]), dirs_too=r.random() < 0.4)
    if r.random() < 0.1:
        c["out"] = "."
    c["setup"] = {k: v for k, v in c["setup"].items() if k not in "XYZE"}
    return c


@contextlib.contextmanager
def inside(dirname, argv, answers):
    """Run as the installed command would be: own directory, arguments, answers on the terminal."""
    cwd, oa, oi, sl = os.getcwd(), sys.argv, builtins.input, locale.setlocale
    q = list(answers)

    def ask(*_):
        if not q:
            raise AssertionError("asked too often")
        return q.pop(0)

    def setl(cat, loc=None):
        try:
            return sl(cat, loc)
        except locale.Error:  # this sandbox has no en_US
            return sl(cat, "C.utf8")

    old = sl(locale.LC_ALL)
    os.chdir(dirname)
    sys.argv, builtins.input, locale.setlocale = ["pygcd"] + argv, ask, setl
    try:
        yield q
    finally:
        os.chdir(cwd)
        sys.argv, builtins.input, locale.setlocale = oa, oi, sl
        locale.setlocale(locale.LC_ALL, old)


def tree(d, dirs=False):
    return sorted(str(p.relative_to(d)) for p in pathlib.Path(d).rglob("*") if p.is_file() or dirs)


EXAMPLE = """
import locale, sys
sys.path.insert(0, sys.argv[1])
sl = locale.setlocale
def setl(cat, loc=None):
    try:
        return sl(cat, loc)
    except locale.Error:  # this sandbox has no en_US
        return sl(cat, "C.utf8")
locale.setlocale = setl
from pyGCodeDecode import cli
assert cli.__file__.startswith(sys.argv[1]), cli.__file__
sys.argv = ["pygcd", "run_example", sys.argv[2]]
cli._main()
"""


def c26_example(case, ctx):
    """The example commands, with stand-ins for the two programs of the package (which are not part of this copy)."""
    import numpy as np
    import pyvista as pv
    import yaml
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
    from pyGCodeDecode.tools import save_layer_metrics

    gi = sut.modules()
    which = case["kind"].split("_")[1]
    d = sut.scratch() / "cli"
    shutil.rmtree(d, ignore_errors=True)
    (d / "cwd").mkdir(parents=True)
    shutil.copytree(pathlib.Path(sut.REPO) / "pyGCodeDecode", d / "pkg" / "pyGCodeDecode", ignore=shutil.ignore_patterns("__pycache__"))
    ex = d / "pkg" / "pyGCodeDecode" / "examples" / "data"
    g = ex / f"{which}.gcode"
    g.write_text("\n".join(case["lines"]) + "\n", encoding="utf-8", errors="surrogateescape")
    before = tree(d)
    inputs = {p: (d / p).read_bytes() for p in before}
    p = subprocess.run([sys.executable, "-c", EXAMPLE, str(d / "pkg"), which], cwd=d / "cwd", capture_output=True, text=True, encoding="utf-8", errors="replace", timeout=300,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONUTF8="1", PYTHONPATH=""))
    if p.returncode:
        ctx.bad("crash", f"run_example {which}: {p.stderr[-300:]}")
        return
    ctx.count(case["kind"])
    ctx.expect(all((d / p).exists() and (d / p).read_bytes() == b for p, b in inputs.items()), "inputs", "an input file was changed")
    new = [p for p in tree(d) if p not in before and not p.endswith(".png")]
    out = d / "cwd" / "output_benchy_example"
    rel = sorted(f"cwd/output_benchy_example/benchy{x}" for x in ("_summary.yaml", "_layer_metrics.csv", "_prusa_mini_event_series.csv", ".vtk")) if which == "benchy" else []
    if not ctx.expect(new == rel, "outputs", f"run_example {which}: written {new}, expected {rel}"):
        return
    with sut.quiet():
        if which == "benchy":
            s = gi.setup(presets_file=ex / "printer_presets.yaml", printer="prusa_mini", layer_cue="LAYER_CHANGE")
            sim = gi.simulation(gcode_path=g, initial_machine_setup=s)
            sim.save_summary(d / "ref.yaml")
            generate_abaqus_event_series(sim, filepath=d / "ref.inp")
            old = locale.setlocale(locale.LC_ALL)
            save_layer_metrics(sim, filepath=d / "ref.csv", locale="C", delimiter=",")
            locale.setlocale(locale.LC_ALL, old)
            mesh = sim.plot_3d()
        else:
            sim = gi.simulation(gcode_path=g, initial_machine_setup=gi.setup(presets_file=d / "pkg/pyGCodeDecode/data/default_printer_presets.yaml", printer="anisoprint_a4"))
    end = float(sim.blocklist[-1].get_segments()[-1].t_end)
    for x in re.findall(r"travel all states .* is (\S+) seconds", p.stdout):
        ctx.expect(abs(float(x) - end) <= 0.00501 + 1e-9 * end, "summary", f"run_example {which} reports {x} s, the library {end} s")
    if which == "benchy":
        got, want = (yaml.safe_load(f.read_text()) for f in (out / "benchy_summary.yaml", d / "ref.yaml"))
        ctx.expect({k: v for k, v in got.items() if k != "filename"} == {k: v for k, v in want.items() if k != "filename"} and pathlib.Path(got["filename"]).name == g.name, "summary",
                   f"run_example: summary {got}, expected {want}")
        for f, ref in (("benchy_layer_metrics.csv", "ref.csv"), ("benchy_prusa_mini_event_series.csv", "ref.inp")):
            ctx.expect((out / f).read_text() == (d / ref).read_text(), "metrics", f"run_example: {f} is not what the library writes")
        with sut.quiet():
            m2 = pv.read(out / "benchy.vtk")
        ctx.expect(m2.n_points == mesh.n_points and np.allclose(np.asarray(m2.points), np.asarray(mesh.points), atol=1e-4), "vtk", "the VTK file is not the mesh of the simulation")
    shutil.rmtree(d)


def c26_check(case, ctx):
    if case["kind"].startswith("example"):
        return c26_example(case, ctx)
    import importlib.resources

    import numpy as np
    import pyvista as pv
    import yaml
    from pyGCodeDecode import cli
    from pyGCodeDecode.tools import save_layer_metrics

    gi = sut.modules()
    kind = case["kind"]
    d = sut.scratch() / "cli"
    shutil.rmtree(d, ignore_errors=True)
    (d / "cwd").mkdir(parents=True)
    (d / "in").mkdir()
    g = (d / "cwd" if kind in ("autofind", "many_found", "all_default") else d / "in") / (case["stem"] + (".gcode" if kind in ("autofind", "many_found", "all_default") or "." in case["stem"] else case.get("suffix", ".gcode")))
    if kind != "none_found":
        g.write_text("\n".join(case["lines"]) + "\n", encoding="utf-8", errors="surrogateescape")
    preset = {k: case["setup"][k] for k in sut.SETUP_KEYS if k in case["setup"]}
    pcue = case.get("preset_cue")
    if pcue:
        preset["layer_cue"] = pcue
    y = d / "in" / "p.yaml"
    decoy = dict(preset, p_acc=preset["p_acc"] * 0.5, p_vel=preset["p_vel"] * 0.5, jerk=preset["jerk"] * 0.5)
    name = "anisoprint_a4" if kind == "default_printer" else "my printer"
    y.write_text(yaml.safe_dump({"anisoprint_a4x" if kind == "no_default_printer" else "anisoprint_a4": preset if kind == "default_printer" else decoy, "my printer": preset if kind != "default_printer" else decoy, "z": decoy}), encoding="utf-8")
    (d / "cwd" / "readme.txt").write_text("x")
    if kind in ("autofind", "none_found"):
        (d / "cwd" / "notes.gcode.bak").write_text("G1 X5\n")
        (d / "cwd" / "sub").mkdir()
        (d / "cwd" / "sub" / "inner.gcode").write_text("G1 X5 E3\n")
        if case.get("dirs_too"):
            (d / "cwd" / "folder.gcode").mkdir()
    if kind == "many_found":
        (d / "cwd" / "second.gcode").write_text("G1 X5 E3\n")
    out = {"abs": d / "absout"}.get(case["out"], d / "cwd" / case["out"])
    outarg = str(out) if case["out"] == "abs" else case["out"]
    S = case["short"]
    argv = ["plot"] + ([] if kind not in ("autofind", "none_found", "many_found", "all_default") or not case.get("bare") else ["-g" if S else "--gcode"])
    presets = y

    def arg(p):
        return os.path.relpath(p, d / "cwd") if case.get("relative") else str(p)

    if kind not in ("autofind", "none_found", "many_found", "all_default"):
        argv += ["-g" if S else "--gcode", arg({"bad_gcode": d / "in" / "missing.gcode", "dir_gcode": d / "in"}.get(kind, g))]
    if kind not in ("default_presets", "all_default"):
        argv += ["-p" if S else "--presets", arg(d / "in" / "nope.yaml" if "bad_presets" in kind else y)]
    else:
        presets = importlib.resources.files("pyGCodeDecode").joinpath("data/default_printer_presets.yaml")
        name = case["preset"] if kind == "default_presets" else "anisoprint_a4"
    if kind not in ("default_printer", "all_default", "no_default_printer"):
        argv += ["-pn" if S else "--printer_name", "nobody" if "bad_printer" in kind else name]
    answers = []
    if kind.startswith("prompt") or kind == "all_default":
        answers = case["answers"] + [case["no"] if kind == "prompt_no" else case["yes"]]
        out = d / "cwd" / f"output_{case['stem']}"
    else:
        argv += ["-o" if S else "--out_dir", outarg]
    cue = None if kind in ("no_cue", "all_default") else case["cue"]
    if cue:
        argv += ["-lc" if S else "--layer_cue", cue]
    asked, cue = cue, cue or (pcue if presets is y else None)  # the printer may bring its own cue
    results = [out / f"{case['stem']}{x}" for x in ("_summary.yaml", ".vtk") + (("_layer_metrics.csv",) if cue else ())]
    stops = kind in ("bad_gcode", "bad_presets", "none_found", "many_found", "bad_printer", "prompt_no", "prompt_yes_bad_printer", "prompt_yes_bad_presets", "no_default_printer", "dir_gcode")
    if case.get("older"):  # the directory is there already, with other files or results of an earlier run
        (out / "sub").mkdir(parents=True, exist_ok=True)
        if case["older"] in ("other", "both"):
            (out / "sub" / "keep.csv").write_text("1;2\n")
            (out / "keep_summary.yaml").write_text("a: 1\n")
        if case["older"] in ("same", "both"):
            for f in results:
                f.write_text("old: 1\n" * 3000)
        ctx.count("older_" + case["older"])
    before, dirs = tree(d), tree(d, True)
    if not stops:
        before = [p for p in before if d / p not in results]
    inputs = {p: (d / p).read_bytes() for p in before}
    err = None
    with inside(d / "cwd", argv, answers) as left, sut.quiet():
        try:
            cli._main()
        except SystemExit:
            err = "exit"
        except (ValueError, KeyError) as e:
            err = type(e).__name__
        except AssertionError as e:
            err = f"prompt: {e}"
    ctx.count(kind)
    new = [p for p in tree(d) if p not in before]
    ctx.expect(all((d / p).exists() and (d / p).read_bytes() == b for p, b in inputs.items()), "inputs", "an input file was changed")
    if stops and kind != "prompt_no":
        ctx.expect(err is not None and not err.startswith("prompt"), "accepted", f"{kind}: the command does not stop ({err})")
        ctx.expect(not new, "outputs", f"{kind}: files {new} are written")
        ctx.expect(tree(d, True) == dirs, "outputs", f"{kind}: directories are created: {sorted(set(tree(d, True)) - set(dirs))}")
        shutil.rmtree(d)
        return
    if not ctx.expect(err is None, "crash", f"{kind} {argv}: {err}"):
        return
    ctx.expect(not left, "prompt", f"{kind}: answers {left} were not asked for")
    if kind == "prompt_no":
        ctx.expect(not new, "outputs", f"answered no, but files {new} are written")
        ctx.expect(tree(d, True) == dirs, "outputs", f"answered no, but directories are created: {sorted(set(tree(d, True)) - set(dirs))}")
        shutil.rmtree(d)
        return
    # the same through the programming interface
    with sut.quiet():
        s = gi.setup(presets_file=presets, printer=name, layer_cue=asked)
        sim = gi.simulation(gcode_path=g, initial_machine_setup=s)
        sim.save_summary(d / "ref.yaml")
        want = yaml.safe_load((d / "ref.yaml").read_text())
        mesh = sim.plot_3d()
        met = None
        if cue:
            old = locale.setlocale(locale.LC_ALL)
            met = save_layer_metrics(sim, filepath=d / "ref.csv", locale="C", delimiter=",")
            locale.setlocale(locale.LC_ALL, old)
    rel = [str(f.relative_to(d)) for f in results]
    if not ctx.expect(sorted(x for x in new if not x.endswith(".png")) == sorted(rel), "outputs", f"{kind}: written {new}, expected {rel}"):
        return
    got = yaml.safe_load((out / f"{case['stem']}_summary.yaml").read_text())
    ok = set(got) == set(want) and all(pathlib.Path(got[q]).name == g.name if q == "filename" else abs(got[q] - v) <= 1e-9 * (1 + abs(v)) for q, v in want.items())
    ctx.expect(ok, "summary", f"{kind}: summary {got}, the simulation with {name} gives {want}")
    # the end time against the independent planner
    pr = yaml.safe_load(pathlib.Path(str(presets)).read_text())[name]
    st = interp.interpret(case["lines"], dict(pr, X=0, Y=0, Z=0, E=0))
    mv = plan.plan(st, pr["firmware"])
    if not any(m.kind == "move" and m.eonly for m in mv):
        xm = [m for m in mv if m.kind == "move"]
        if not any(traj.near_threshold(pr["firmware"], a.vel, b.vel, a.jerk) for a, b in zip(xm, xm[1:])):
            tot = sum(plan.profile_time(m.vb, m.ve, m.V, m.acc, m.d) if m.kind == "move" else m.pause for m in mv)
            ctx.count("end_times_checked")
            ctx.expect(abs(got["t_end"] - tot) <= 1e-8 * (1 + tot), "summary", f"{kind}: end time {got['t_end']}, reference planner {tot} for {name}")
    if cue:
        a, b = [[w.strip() for w in ln.split(",")] for ln in (out / f"{case['stem']}_layer_metrics.csv").read_text().splitlines()], \
               [[w.strip() for w in ln.split(",")] for ln in (d / "ref.csv").read_text().splitlines()]
        ctx.expect(a == b and len(a) == len(met[0]) + 1, "metrics", f"layer metrics {a[:3]}, expected {b[:3]}")
        ctx.count("metrics_rows", len(a) - 1)
    with sut.quiet():
        m2 = pv.read(out / f"{case['stem']}.vtk")
    ctx.expect(m2.n_points == mesh.n_points and np.allclose(np.asarray(m2.points), np.asarray(mesh.points), atol=1e-4) and np.allclose(np.asarray(m2["velocity"]), np.asarray(mesh["velocity"]), atol=1e-4),
               "vtk", "the VTK file is not the mesh of the simulation")
    ctx.count("complete_runs")
    shutil.rmtree(d)


RULE = "Generated programs round-robin over the five corner rules; "

PROPS = {
    "C19": dict(gen=c19_gen, check=c19_check, n={"quick": 10000, "thorough": 24000}, chunk=10, need={"rows": 10000, "flag_on": 3000, "flag_off": 3000, "flags_of_moves": 3000},
                rule=RULE + "units, tolerances and target directories vary; every row and flag is compared with the recorded trajectory and with the program, the file is read"
                " back. Non-trivial: every program."),
    "C20": dict(gen=c20_gen, check=c20_check, n={"quick": 11000, "thorough": 28000}, chunk=10, need={"layers": 1500, "prints": 400, "csv_rows": 1500, "without_cue": 15},
                rule=RULE + "cues first, last, repeated, on lines of moves, or not configured; times, distances and speeds per layer are recomputed from the recorded trajectory"
                " and the program, the file is read back. Non-trivial: every program."),
    "C21": dict(gen=c21_gen, check=c21_check, n={"quick": 12750, "thorough": 48000}, chunk=10, need={"grid_boxes": 500, "grid_events": 500, "boxes": 1000, "crossings": 2000, "uncrossed": 50, "instants": 3000},
                rule=RULE + "up to four random boxes in general position per program (no path corner on a face, no path through an edge); entry and exit times are compared with"
                " exact clipping and with the side on which the nozzle is at sampled instants. Non-trivial: at least one box in general position."),
    "C22": dict(gen=c22_gen, check=c22_check, n={"quick": 2000, "thorough": 18000}, chunk=8, final=c22_final, need={"comparisons": 1000, "repetitions": 300, "processes": 2,
                "new_states": 60, "property": 60},
                rule=RULE + "random sequences of refreshes, queries, outputs, other simulations and changes of the shared setup object; the trajectory must stay bit-identical, also"
                " in fresh processes with different hash seeds. Non-trivial: every program."),
    "C25": dict(gen=c25_gen, check=c25_check, n={"quick": 2550, "thorough": 12000}, chunk=5, maxtasks=20, need={"velocity_plots": 80, "plotted_values": 10000, "meshes": 80, "edges": 1500},
                rule=RULE + "curves of the velocity plot and points, cells and colours of the 3D mesh are read back and compared with the recorded trajectory. Non-trivial: every"
                " program."),
    "C26": dict(gen=c26_gen, check=c26_check, n={"quick": 2520, "thorough": 5600}, chunk=3, maxtasks=30, noshrink=True, need={"complete_runs": 60, "end_times_checked": 20, "metrics_rows": 150},
                rule=RULE + "the command is run in a scratch directory with all combinations of given, missing and wrong arguments and typed answers; its files are compared with"
                " results of the programming interface and of the reference planner. Non-trivial: every run."),
}
