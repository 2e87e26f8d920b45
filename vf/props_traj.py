"""C07-C14, C23, C27: monitors over the recorded trajectory."""

import math
import re

from . import gen, interp, plan, sut, traj

FW = gen.FIRMWARES


def fw_of(i):
    return FW[i % len(FW)]


MIXES = [
    {},
    {"chain": 4, "collinear": 4, "tiny": 3, "random": 1},
    {"corner": 8, "polygon": 2, "random": 1},
    {"arc": 6, "polygon": 4},
    {"retract": 6, "dwell": 3},
    {"speedstep": 6, "collinear": 3, "settings": 5},
    {"zigzag": 5, "reverse": 5, "tiny": 3},
    {"axes": 8, "helix": 3},
]


def mixed(weights=None, sizes=(1, 9), wild=0.12, must=(), each=None, **o):
    def g(r, i, tier):
        w = dict(r.choice(MIXES))
        w.update(weights or {})
        size = r.randint(*sizes) if i % 797 != 41 else 130  # one program of some thousand pieces of motion
        if each:
            w = dict({k: 0 for k in gen.PIECES}, **each(r))
        o2, k = dict(o), 1.0 if must else r.random()
        if "cue" not in o and r.random() < 0.08:
            o2["cue"], w["layer"] = "LAYER", 4
        if k < 0.04:
            return gen.tiny_program(r, fw_of(i), o2.get("cue"))
        if k > 0.96 and not must:
            return gen.extreme_program(r, fw_of(i), o2.get("cue"))
        c = gen.gen_case(r, firmware=fw_of(i), size=size, weights=w, must=must, wild=r.random() < wild, deco=r.choice([0, 0, 0.15]), **o2)
        if k < 0.08:  # far away from the origin
            far = dict(c, lines=[r.choice(["G1 X4000 Y-3000 F9000", "G0 X-2500 Z1200", "G1 Y60000 F30000"])] + c["lines"])
            c = far if gen.valid(far) else c
        if 0.5 < k < 0.56:  # corners almost straight or almost reversing, which only an unusual jerk can resolve
            j = r.choice([0.05, 0.1, 0.3, 40, 90])
            c2 = dict(c, setup=dict(c["setup"], jerk=j), lines=[re.sub(r"\bM205 .*", f"M205 X{j}", s) for s in c["lines"]])
            c = c2 if gen.valid(c2) else c
        return c

    return g


def in_domain(case):
    return gen.valid(case) is not None


def finish(case, ctx, rep, tags, r):
    for k, v in rep.n.items():
        ctx.count(k, v)
    ctx.count("fw_" + str(case["setup"]["firmware"]))
    if rep.skip:
        ctx.skipped = rep.skip
        ctx.count("skipped")
    for tag, msg in rep.v:
        if tag in tags or tag in ("crash", "finite"):
            ctx.bad(tag, msg)
        elif tag == "path" and rep.groups is not None and not any(g.segs or g.dsegs for g in rep.groups):
            ctx.bad("path", msg)  # not even comparable
    if r.sim is not None and ("could not be modeled" in r.out or "does not adhere" in r.out):
        ctx.count("self_check_messages")


def simple(tags, nontrivial):
    def check(case, ctx):
        r, rep, st = traj.run(case)
        finish(case, ctx, rep, tags, r)
        ctx.trivial = not any(rep.n.get(k) for k in nontrivial)

    return check


# ---------------------------------------------------------------- C07: seen through the public query

def c07_check(case, ctx):
    import random

    r, rep, st = traj.run(case)
    finish(case, ctx, rep, {"path"}, r)
    if r.sim is None or rep.skip or rep.v:
        return
    end = r.blocks[-1][-1].t1
    rnd = random.Random(len(case["lines"]))
    ts = sorted(rnd.uniform(0, end) for _ in range(12)) + [end]
    gs = [g for g in rep.groups]
    for t in ts:
        with sut.quiet():
            _, pos = r.sim.get_values(t=t)
        ctx.count("positions_queried")
        near = [g for g in gs if (g.segs + g.dsegs) and (g.segs + g.dsegs)[0].t0 - 1e-9 <= t <= (g.segs + g.dsegs)[-1].t1 + 1e-9]
        ok = False
        for g in near:
            delta = [b - a for a, b in zip(g.a, g.b)]
            q = sum(d * d for d in delta)
            f = min(1.0, max(0.0, sum((p - a) * d for p, a, d in zip(pos, g.a, delta)) / q)) if q else 0.0
            if traj.maxdiff(pos, [a + f * d for a, d in zip(g.a, delta)]) < 3 * traj.TP:
                ok = True
        if not ok:
            ctx.bad("path", f"at t={t} the nozzle is reported at {pos}, which is not on the programmed path")
            return
    # at the end of every motion the programmed target is reported
    for g in gs:
        segs = g.segs + g.dsegs
        with sut.quiet():
            _, pos = r.sim.get_values(t=segs[-1].t1)
        if not ctx.expect(traj.maxdiff(pos, g.b) < 3 * traj.TP, "path", f"line {g.line}: at its end the nozzle is at {pos} instead of {g.b}"):
            return
        if len(gs) > 25:
            gs = gs[-1:]  # bounded number of queries on long programs


# ---------------------------------------------------------------- C09

def c09_check(case, ctx):
    import random

    r, rep, st = traj.run(case)
    finish(case, ctx, rep, {"kin"}, r)
    ctx.trivial = not rep.n.get("accelerations")
    if r.sim is None or rep.skip or rep.v:
        return
    rnd = random.Random(len(case["lines"]) * 7 + 1)
    cand = [(g, s) for g in rep.groups for s in g.segs if s.t1 - s.t0 > 1e-6]
    for g, s in rnd.sample(cand, min(10, len(cand))):
        t1 = s.t0 + (s.t1 - s.t0) * rnd.uniform(0.05, 0.45)
        t2 = s.t0 + (s.t1 - s.t0) * rnd.uniform(0.55, 0.95)
        with sut.quiet():
            v1, p1 = r.sim.get_values(t=t1)
            v2, p2 = r.sim.get_values(t=t2)
        dt = t2 - t1
        ctx.count("pairs_queried")
        tol = 1e-8 + 1e-10 * abs(g.move.d) + max(1.0, g.move.V) * traj.clock(s.t1)
        for ax in range(4):
            if abs((p2[ax] - p1[ax]) - (v1[ax] + v2[ax]) / 2 * dt) > tol:
                ctx.bad("kin", f"line {g.line}: between t={t1} and {t2} axis {ax} moves {p2[ax] - p1[ax]} with velocities {v1[ax]}, {v2[ax]}")
                return
        c = [sum(x * d for x, d in zip(v, g.move.dirv)) / sum(d * d for d in g.move.dirv) for v in (v1, v2)]
        if abs(c[1] - c[0]) > g.move.acc * dt * (1 + 1e-8) + 1e-9 * (1 + g.move.V) + g.move.acc * traj.clock(s.t1):
            ctx.bad("kin", f"line {g.line}: speed changes by {c[1] - c[0]} within {dt} s, acceleration {g.move.acc}")
            return


# ---------------------------------------------------------------- C14

def c14_gen(r, i, tier):
    g = mixed(weights={"dwell": 6}, sizes=(1, 6), must=["dwell"] * r.choice([0, 1, 2, 3]), p_dwell=0.05)
    case = g(r, i, tier)
    L = case["lines"]
    k = r.random()
    if k < 0.15:  # two or more in a row, first, last
        j = r.choice([0, len(L), r.randint(0, len(L))])
        L[j:j] = [r.choice(["G4 P500", "G4 S2", "G4 S0.003 P9", "G4 P0", "G4 P0 S1", "G4 P0.4", "G4 P750.75"]) for _ in range(r.randint(1, 3))]
    elif k < 0.3:  # on the line of a move
        for j, s in enumerate(L):
            if s.strip().startswith(("G0 ", "G1 ")) and ";" not in s and "G4" not in s and r.random() < 0.3:
                L[j] = s + r.choice([" G4 P250", " G4 S1.5"])
    elif k < 0.4:  # comments and settings between move and dwell
        j = r.randint(0, len(L))
        L[j:j] = ["; pause", "M204 P700", "", "G4 P321", "M107"]
    return case if gen.valid(case) is not None else g(r, i, tier)


# ---------------------------------------------------------------- C12 at least the corner of interest must bind

def c12_each(r):
    return r.choice([
        {"corner": 6, "settings": 1, "mode": 0.5, "combined": 1}, {"corner": 2, "combined": 4}, {"corner": 4, "polygon": 3, "zigzag": 2, "settings": 2}, {"arc": 4, "tiny": 3, "random": 3},
        {"corner": 4, "speedstep": 3, "reverse": 2, "retract": 1}, {"random": 4, "corner": 3, "dwell": 0.5}, {"prime": 4, "corner": 2, "polygon": 1}, {"touched": 4, "corner": 1, "tiny": 1}, {"axes": 4, "helix": 1, "corner": 1}])


def c13_each(r):
    return r.choice([
        {"chain": 3, "collinear": 2, "corner": 1, "burst": 0.5}, {"random": 4, "tiny": 2, "speedstep": 2, "settings": 1}, {"arc": 4, "polygon": 2, "zigzag": 2},
        {"chain": 2, "settings": 2, "speedstep": 3, "dwell": 0.7}, {"random": 3, "retract": 1, "reverse": 2, "mode": 1, "dwell": 0.5},
        {"prime": 2, "touched": 3, "chain": 1, "dwell": 0.3}, {"axes": 4, "helix": 2, "settings": 1}, {"combined": 4, "random": 2, "tiny": 1}])


# ---------------------------------------------------------------- C23

def c23_gen(r, i, tier):
    fw = fw_of(i)
    kind = i % 40
    setup = gen.gen_setup(r, fw, wild=r.random() < 0.5)
    f = r.choice([600, 3000, 12000, 60000])
    if kind in (0, 20):  # thousands of moves within one braking distance, straight or slightly bent
        n = {"quick": r.choice([900, 1400, 2000]), "thorough": r.choice([1500, 4000, 9000])}[tier]
        if kind == 20:
            n //= 2
        setup.update(p_acc=r.choice([50, 200]), jerk=r.choice([5, 20, 40]))
        x = y = 0.0
        a, bend = 0.3, r.choice([0, 0.0005, 0.002])
        d = r.choice([0.005, 0.01, 0.02])
        lines = [f"G1 F{r.choice([6000, 12000, 30000])}"]
        for _ in range(n):
            x, y, a = x + d * math.cos(a), y + d * math.sin(a), a + bend
            lines.append(f"G1 X{x:.6f} Y{y:.6f}")
        if kind == 20:
            lines += [f"G1 X{x - d * 5:.6f}", "G4 P10"] + lines[1:]
        return {"lines": lines, "setup": setup}
    if kind == 1:  # zigzag with extreme reversals
        lines = [f"G1 F{f}"] + [f"G1 X{(-1) ** k * r.choice([0.01, 1, 50])} E{k}" for k in range(r.randint(2, 200))]
        return {"lines": lines, "setup": setup}
    if kind == 2:  # only dwells / only extrusion / single move / dwell first and last
        lines = r.choice([
            ["G4 P100"], ["G4 S1", "G4 S0", "G4 P3"], ["G1 E5"], ["G1 E-2 F1800", "G1 E2", "G4 P5", "G1 E1"], ["G1 X0.001"], ["G1 Z0.2"],
            ["G4 P0", "G1 X1", "G4 P0"], ["G1 X5000 F60000"], ["; c", "", "G1 Y-3", "; c"], ["G4 P1", "G92 X3", "G4 P1", "G1 X3 Y1"],
            ["G1 X5 G4 S1"], ["G1 X5", "G4 S90000", "G1 X7"], ["G4 S400000", "G1 X2", "G4 P3600001"], ["G4 S1", "G1 E1", "G1 X1 E2", "G1 E1", "G4 S1"]])
        if setup["jerk"] == 0 and fw == "marlin_jerk":
            setup["jerk"] = 5
        return {"lines": [f"G1 F{f}"] * r.randint(0, 1) + list(lines), "setup": {k: v for k, v in setup.items() if k not in "XYZE"}}
    if kind == 3:  # far away, long, slow and fast
        k = r.choice([1e3, 1e4])
        lines = []
        for _ in range(r.randint(2, 20)):
            lines.append(f"G1 X{r.uniform(-k, k):.3f} Y{r.uniform(-k, k):.3f} Z{r.uniform(0, 100):.2f} F{r.choice([60, 600, 60000])}")
            if r.random() < 0.5:
                lines.append(f"G1 X{r.uniform(-k, k):.2f}")
        return {"lines": lines, "setup": setup}
    if kind == 4:  # many lines that do nothing between few moves
        lines = []
        n = r.randint(2, 12)
        long = r.randrange(n) if i // 40 % 8 == 0 else n
        for j in range(n):
            lines += r.choice([["; c"], [""], ["M107"], ["G92 E0"], ["G1"], ["G1 F1200"]]) * (1100 if j == long else r.choice([1, 30, 300]))
            lines.append(f"G1 X{r.uniform(-5, 5):.3f} Y{r.uniform(-5, 5):.3f}")
        return {"lines": lines, "setup": setup}
    if kind in (5, 15, 25, 35):
        return gen.extreme_program(r, fw)
    return gen.gen_case(r, firmware=fw, size=r.randint(1, 10), wild=True, weights=r.choice(MIXES), unsupported=True)


def c23_check(case, ctx):
    if gen.valid(case) is None and not any("G4" in x for x in case["lines"]):
        ctx.trivial = True
        return
    st = interp.interpret(case["lines"], case["setup"])
    moves = sum(1 for a, b in zip(st, st[1:]) if a.pos != b.pos)
    r = sut.simulate(case)
    ctx.count("programs")
    ctx.count("fw_" + str(case["setup"]["firmware"]))
    if moves > 700:
        ctx.count("long_chains")
    if r.error:
        ctx.bad("crash", f"valid program with {moves} moves: {r.error[:400]}")
        return
    for phrase in ("could not be modeled", "does not adhere"):
        if phrase in r.out:
            ctx.bad("self_check", "; ".join(x for x in r.out.splitlines() if phrase in x)[:400])
    blocks = sut.trace(r.sim)
    end = blocks[-1][-1].t1
    n = 0
    for b in blocks:
        for s in b:
            n += 1
            if not all(map(math.isfinite, (s.t0, s.t1, *s.p0, *s.p1, *s.v0, *s.v1))):
                ctx.bad("finite", f"non-finite value near t={s.t0}")
                return
            if s.t1 < s.t0 - 1e-12 * (1 + s.t0) or s.t0 < -1e-12:
                ctx.bad("time", f"segment runs from {s.t0} to {s.t1}")
                return
    ctx.count("segments", n)
    if moves:
        ctx.expect(end > 0, "time", f"{moves} moves take {end} s")
    with sut.quiet():
        for t in (0.0, end / 3, end):
            v, p = r.sim.get_values(t=t)
            ctx.expect(all(map(math.isfinite, list(v) + list(p))), "finite", f"get_values({t}) = {v}, {p}")
    ctx.expect(traj.maxdiff(blocks[-1][-1].p1, st[-1].pos) < 1e-5, "end", f"ends at {blocks[-1][-1].p1}, programmed {st[-1].pos}")
    est = re.findall(r"travel all states .* is (\S+) seconds", r.out)
    for x in est:
        ctx.count("estimates")
        ctx.expect(abs(float(x) - end) <= 0.00501 + 1e-9 * end, "report", f"the console names {x} s, the print takes {end} s")
    for x, y in re.findall(r"extracted (\d+) states .* generated (\d+) planner blocks", r.out):
        ctx.expect((int(x), int(y)) == (len(r.sim.states), len(blocks)), "report", f"the console names {x} states and {y} blocks, there are {len(r.sim.states)} and {len(blocks)}")
    # a generous physical upper bound: every move alone, from rest to rest, and all pauses
    ub = 0.0
    for m in plan.build_moves(st):
        ub += plan.profile_time(0, 0, m.V, m.acc, m.d) if m.kind == "move" else m.pause
    ctx.expect(end <= ub * (1 + 1e-6) + 1e-6, "bound", f"takes {end} s, stopping after every single move would take {ub} s")
    lb = sum(m.d / m.V if m.kind == "move" else m.pause for m in plan.build_moves(st))
    ctx.expect(end >= lb * (1 - 1e-6) - 1e-6, "bound", f"takes {end} s, at full programmed speed all the time it would take {lb} s")


# ---------------------------------------------------------------- C27

TRANSFORMS = ["translate", "rotate", "mirror_x", "mirror_y", "swap_xy", "scale", "retime", "rot90", "swap_xz", "cycle", "mirror_z", "mirror_e", "turn"]

MIXING = {"rotate", "rot90", "swap_xy", "swap_xz", "cycle", "turn"}  # one axis of the original moves another one


def c27_gen(r, i, tier):
    c = gen.gen_case(r, firmware=fw_of(i), size=r.randint(1, 7), weights=dict(r.choice(MIXES), mode=0, noise=0), deco=0, relative=False)
    tr = r.choice(TRANSFORMS)
    if tr in ("rotate", "turn") and c["setup"]["firmware"] == "MKA":
        tr = r.choice(["rot90", "cycle"])  # per-axis jerk is not rotation invariant
    k = r.choice([0.5, 2.0, 3.0, 10.0]) if tr in ("scale", "retime") else None
    return dict(c, transform=tr, angle=r.uniform(0, 6.28), shift=[round(r.uniform(-40, 40), 2) for _ in range(4)], k=k)


def rebuild(st, tr, case):
    """Program in absolute coordinates with full precision from reference states, transformed."""
    a = case["angle"] if tr == "rotate" else math.pi / 2
    ca, sa = (math.cos(a), math.sin(a)) if tr == "rotate" else (0.0, 1.0)
    ct, sn = math.cos(case["angle"]), math.sin(case["angle"])
    sh, k = case["shift"], case.get("k") or 1.0

    def T(p):
        x, y, z, e = p
        if tr == "translate":
            return [x + sh[0], y + sh[1], z + sh[2], e + sh[3]]
        if tr in ("rotate", "rot90"):
            return [ca * x - sa * y, sa * x + ca * y, z, e]
        if tr == "mirror_x":
            return [-x, y, z, e]
        if tr == "mirror_y":
            return [x, -y, z, e]
        if tr == "swap_xy":
            return [y, x, z, e]
        if tr == "swap_xz":
            return [z, y, x, e]
        if tr == "cycle":
            return [z, x, y, e]
        if tr == "mirror_z":
            return [x, y, -z, e]
        if tr == "mirror_e":
            return [x, y, z, -e]
        if tr == "turn":  # about x, then about z
            y, z = ct * y - sn * z, sn * y + ct * z
            return [ct * x - sn * y, sn * x + ct * y, z, e]
        if tr == "scale":
            return [k * v for v in p]
        return list(p)

    lk = k if tr == "scale" else 1.0
    vk = lk * (k if tr == "retime" else 1.0)  # speeds
    ak = lk * (k * k if tr == "retime" else 1.0)  # accelerations
    tk = 1 / k if tr == "retime" else 1.0  # times
    p0 = T(st[0].pos)
    setup = dict(case["setup"], p_vel=vk * st[0].feed, p_acc=ak * st[0].p_acc, jerk=vk * st[0].jerk, X=p0[0], Y=p0[1], Z=p0[2], E=p0[3])
    lines = []
    for A, B in zip(st, st[1:]):
        if (A.p_acc, A.jerk) != (B.p_acc, B.jerk):
            lines.append(f"M204 P{ak * B.p_acc!r}")
            lines.append(f"M205 X{vk * B.jerk!r}")
        w = []
        pa, pb = T(A.pos), T(B.pos)
        for ax, i in zip("XYZE", range(4)):
            if A.pos[i] != B.pos[i] or (tr in MIXING and ax != "E" and A.pos[:3] != B.pos[:3]):
                w.append(f"{ax}{pb[i]:.12f}")
        if B.feed != A.feed:
            w.append(f"F{vk * B.feed * 60!r}")
        if w:
            lines.append("G1 " + " ".join(w))
        if B.pause is not None:
            lines.append(f"G4 S{tk * B.pause!r}")
    return {"lines": lines, "setup": setup}, vk, tk


def c27_check(case, ctx):
    st = interp.interpret(case["lines"], case["setup"])
    xm = [m for m in plan.plan(st, case["setup"]["firmware"]) if m.kind == "move"]
    for a, b in zip(xm, xm[1:]):
        if traj.near_threshold(case["setup"]["firmware"], a.vel, b.vel, a.jerk):
            ctx.skipped = "threshold angle"
            return
    fw = case["setup"]["firmware"]
    base, _, _ = rebuild(st, "none", case)
    other, vk, tk = rebuild(st, case["transform"], case)
    if gen.valid(base, 1e-5) is None or gen.valid(other, 1e-5) is None:
        ctx.trivial = True
        return
    for m in xm:  # reversal and straight-through corners are decided by rounding only for a zero jerk
        if fw in ("marlin_jerk", "MKA") and m.jerk == 0:
            ctx.trivial = True
            return
    a, b = sut.simulate(base, "a"), sut.simulate(other, "b")
    if a.error or b.error:
        ctx.bad("crash", f"{a.error or ''} {b.error or ''}")
        return
    A, B = sut.trace(a.sim), sut.trace(b.sim)
    ctx.count("pairs")
    ctx.count("tr_" + case["transform"])
    if not ctx.expect(len(A) == len(B), "frame", f"{case['transform']}: {len(A)} vs {len(B)} motions"):
        return
    for i, (x, y) in enumerate(zip(A, B)):
        ctx.count("motions_compared")
        tx, ty = x[-1].t1 * tk, y[-1].t1
        vx, vy = max(traj.norm3(v) for s in x for v in (s.v0, s.v1)) * vk, max(traj.norm3(v) for s in y for v in (s.v0, s.v1))
        ex, ey = traj.norm3(x[-1].v1) * vk, traj.norm3(y[-1].v1)
        if abs(tx - ty) > 2e-6 * (1 + ty) or abs(vx - vy) > 2e-5 * (1 + vy) or abs(ex - ey) > 2e-5 * (1 + ey):
            ctx.bad("frame", f"{case['transform']}: motion {i} ends at t={ty} (expected {tx}), peak {vy} ({vx}), exit speed {ey} ({ex})")
            return


RULE = ("Programs from a generator of print-like and hostile motion pieces (polygons, arcs, zigzags, reversals, retractions, chains of short moves, feed/acceleration/"
        "jerk changes, dwells, unit/relative modes, G92), round-robin over the five corner rules; the recorded trajectory is judged by an independent reference. ")

PROPS = {
    "C07": dict(gen=mixed(weights={"mode": 3, "retract": 3, "reverse": 2, "prime": 1, "micro": 1.5, "diagonal": 1.5}), check=c07_check, n={"quick": 10000, "thorough": 32000}, chunk=10, valid=in_domain,
                need={"moves": 8000, "positions_queried": 3000}, rule=RULE + "Non-trivial: every simulated program."),
    "C08": dict(gen=mixed(weights={"dwell": 2, "chain": 1.5}, sizes=(1, 10), p_dwell=0.02), check=simple({"time"}, ["segments"]), n={"quick": 9500, "thorough": 32000}, chunk=10,
                valid=in_domain, need={"segments": 15000}, rule=RULE + "Non-trivial: at least one segment recorded."),
    "C09": dict(gen=mixed(weights={"settings": 3, "touched": 3, "combined": 2}), check=c09_check, n={"quick": 10000, "thorough": 32000}, chunk=10, valid=in_domain,
                need={"accelerations": 10000, "pairs_queried": 2000}, rule=RULE + "Non-trivial: some segment accelerates."),
    "C10": dict(gen=mixed(weights={"speedstep": 5, "settings": 3, "corner": 3, "prime": 2}), check=simple({"cap", "reach"}, ["moves"]), n={"quick": 11000, "thorough": 32000},
                chunk=10, valid=in_domain, need={"moves": 8000, "cruises": 2000}, rule=RULE + "Non-trivial: at least one move."),
    "C11": dict(gen=mixed(weights={"dwell": 2, "retract": 3, "speedstep": 3, "chain": 1, "prime": 1}, p_dwell=0.02), check=simple({"cont", "rest"}, ["corners", "starts_from_rest"]),
                n={"quick": 10000, "thorough": 32000}, chunk=10, valid=in_domain, need={"corners": 8000, "starts_from_rest": 700, "stops_for_dwell": 50,
                                                                                     "extruder_only": 300},
                rule=RULE + "Non-trivial: has a corner or a start from standstill."),
    "C12": dict(gen=mixed(each=c12_each, sizes=(2, 7)), check=simple({"corner"}, ["corners"]), n={"quick": 15000, "thorough": 40000}, chunk=10, valid=in_domain,
                need={"corner_rule_binding": 3000}, rule=RULE + "Non-trivial: has a corner."),
    "C13": dict(gen=mixed(each=c13_each, sizes=(1, 6)), check=simple({"opt"}, ["moves"]), n={"quick": 8000, "thorough": 32000}, chunk=10, valid=in_domain,
                need={"lookahead_binding": 1500, "total_times": 200}, rule=RULE + "Non-trivial: at least one move."),
    "C14": dict(gen=c14_gen, check=simple({"dwell"}, ["dwells"]), n={"quick": 12000, "thorough": 32000}, chunk=10, valid=in_domain,
                need={"positive_dwells": 500}, rule=RULE + "Dwells are added first, last, repeated, and on the line of a move. Non-trivial: has a dwell."),
    "C23": dict(gen=c23_gen, check=c23_check, n={"quick": 3200, "thorough": 16000}, chunk=4,
                need={"programs": 500, "long_chains": 8},
                rule="Extreme programs: up to thousands of tiny moves inside one braking distance, reversals, dwell-only, extruder-only and single-move programs, huge"
                     " coordinates, extreme feed/acceleration/jerk, long runs of lines without motion. Non-trivial: every valid program."),
    "C27": dict(gen=c27_gen, check=c27_check, n={"quick": 8000, "thorough": 24000}, chunk=10, noshrink=True, need={"pairs": 300, "motions_compared": 5000},
                rule="Each generated program is rewritten in absolute coordinates and simulated again translated, rotated, mirrored, with swapped axes, scaled, or with"
                     " scaled time; event times and speeds must transform accordingly. Non-trivial: a pair was compared."),
}
