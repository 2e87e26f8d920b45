"""Offline trace checker: compares a recorded planner trajectory with the independent reference.

Every violation is a pair (tag, message); a property claims a set of tags.
tags: path time kin cap reach cont rest corner opt dwell finite
"""

import math

from . import interp, plan, sut

# the largest deviations ever seen on the unchanged code are about a hundredth of these
TP = 1e-8  # mm
TV = 1e-9  # relative, speeds
TT = 1e-11  # relative, times
TC = 1e-8  # relative, speeds that follow from angles between moves


def clock(t):
    """Rounding of differences of two times near t."""
    return 32e-16 * (1 + abs(t))


def norm3(v):
    return math.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def maxdiff(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


class Group:
    """What one program line asks for: an optional move, then an optional dwell."""

    __slots__ = ("move", "dwell", "line", "layer", "segs", "dsegs", "a", "b")


def groups_of(mv):
    out = []
    for m in mv:
        if m.kind == "dwell" and out and out[-1].line == m.line and out[-1].dwell is None:
            out[-1].dwell = m
            continue
        g = Group()
        g.move, g.dwell = (m, None) if m.kind == "move" else (None, m)
        g.line, g.layer, g.a, g.b = m.line, m.layer, m.a, m.b
        g.segs, g.dsegs = [], []
        out.append(g)
    return out


def still(s):
    return maxdiff(s.p0, s.p1) < 1e-12 and max(map(abs, s.v0)) == 0 and max(map(abs, s.v1)) == 0


def align(groups, blocks):
    """Distribute the observed segments over the groups; -> error string or None."""
    if len(blocks) == len(groups):
        for g, b in zip(groups, blocks):
            if g.move is None:
                g.segs, g.dsegs = [], list(b)
            elif g.dwell is not None:
                segs = list(b)
                d = []
                while segs and still(segs[-1]):
                    d.insert(0, segs.pop())
                g.segs, g.dsegs = segs, d
            else:
                g.segs, g.dsegs = list(b), []
        return None
    # other block structure: distribute by geometry
    segs = [s for b in blocks for s in b]
    i = 0
    for g in groups:
        if g.move is not None:
            while i < len(segs):
                g.segs.append(segs[i])
                i += 1
                if maxdiff(g.segs[-1].p1, g.b) < 1e-7:
                    break
            if not g.segs or maxdiff(g.segs[-1].p1, g.b) > 1e-7:
                return f"trajectory never reaches the target of line {g.line} ({len(blocks)} blocks, {len(groups)} motions)"
        if g.dwell is not None:
            while i < len(segs) and still(segs[i]):
                g.dsegs.append(segs[i])
                i += 1
    if i < len(segs):
        return f"{len(segs) - i} segments beyond the end of the program ({len(blocks)} blocks, {len(groups)} motions)"
    return None


def near_threshold(fw, v0, v1, jerk):
    """True if the corner angle is too close to a discontinuity of the corner rule to be decided in floats."""
    n0, n1 = norm3(v0), norm3(v1)
    if n0 == 0 or n1 == 0:
        return False
    c = -sum(a * b for a, b in zip(v0[:3], v1[:3])) / (n0 * n1)
    if fw == "marlin_jd":
        s = math.sqrt(max(0.0, (1 - c) / 2))
        return min(abs(s - math.sin(math.radians(81))), abs(s - math.sin(math.radians(9)))) < 1e-7
    if fw == "klipper":
        return abs(c - 0.999999) < 1e-9
    if fw in ("marlin_jerk", "MKA") and jerk < 1e-3:
        k = 1.0 if fw == "marlin_jerk" else min(1.0, n0 / n1)
        n = 3 if fw == "marlin_jerk" else 4
        return max(abs(x - k * y) for x, y in zip(v0[:n], v1[:n])) < 1e-6 * (1 + n0)
    return False


class Report:
    def __init__(self):
        self.v = []
        self.n = {}
        self.skip = None
        self.groups = None
        self.mv = None

    def bad(self, tag, msg):
        if len(self.v) < 60:
            self.v.append((tag, msg))

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n


def check(st, fw, blocks, rep=None, want=None):
    """st: reference states; blocks: recorded blocks (lists of Seg)."""
    rep = rep or Report()
    mv = plan.plan(st, fw)
    rep.mv = mv
    xm = [m for m in mv if m.kind == "move"]
    for a, b in zip(xm, xm[1:]):
        if near_threshold(fw, a.vel, b.vel, a.jerk):
            rep.skip = "corner at a threshold angle"
            return rep
    groups = groups_of(mv)
    rep.groups = groups
    if not blocks or any(not b for b in blocks):
        rep.bad("path", "planner block without any segment")
        return rep
    err = align(groups, blocks)
    if err:
        rep.bad("path", err)
        return rep

    # -- numbers are finite
    for b in blocks:
        for s in b:
            for x in (s.t0, s.t1, *s.p0, *s.p1, *s.v0, *s.v1):
                if not math.isfinite(x):
                    rep.bad("finite", f"non-finite number in segment t=[{s.t0},{s.t1}]")
                    return rep

    # -- one gapless clock from zero, one connected path from the initial position
    t, p = 0.0, list(st[0].pos)
    first = True
    for g in groups:
        for s in g.segs + g.dsegs:
            rep.count("segments")
            if abs(s.t0 - t) > TT * (1 + abs(t)):
                rep.bad("time", f"line {g.line}: segment begins at t={s.t0!r} but the previous one ended at {t!r}")
            if s.t1 < s.t0 - 1e-12 * (1 + s.t0):
                rep.bad("time", f"line {g.line}: segment ends before it begins ({s.t0!r} -> {s.t1!r})")
            if maxdiff(s.p0, p) > TP:
                rep.bad("time" if not first else "path", f"line {g.line}: segment begins at {s.p0} but nozzle is at {p}")
            t, p, first = s.t1, s.p1, False

    v_in = 0.0
    for k, g in enumerate(groups):
        m = g.move
        if m is not None:
            rep.count("moves")
            scale = m.d
            if not g.segs:
                rep.bad("path", f"line {g.line}: no trajectory for this move")
                continue
            # straight, monotone, proportional path to the target
            if maxdiff(g.segs[0].p0, m.a) > TP:
                rep.bad("path", f"line {g.line}: begins at {g.segs[0].p0} instead of {m.a}")
            if maxdiff(g.segs[-1].p1, m.b) > TP:
                rep.bad("path", f"line {g.line}: ends at {g.segs[-1].p1} instead of {m.b}")
            f0 = 0.0
            for s in g.segs:
                f = sum((x - a) * d for x, a, d in zip(s.p1, m.a, m.delta)) / sum(d * d for d in m.delta)
                on = [a + f * d for a, d in zip(m.a, m.delta)]
                if maxdiff(on, s.p1) > TP:
                    rep.bad("path", f"line {g.line}: {s.p1} is off the straight path from {m.a} to {m.b}")
                if f < f0 - TP / scale or f > 1 + TP / scale:
                    rep.bad("path", f"line {g.line}: moves backwards or beyond its target (fraction {f0} -> {f})")
                f0 = f
            # motion law of every segment
            vmax = 0.0
            for s in g.segs:
                dt = s.t1 - s.t0
                tol = 1e-8 + 1e-10 * abs(m.d) + max(1.0, m.V) * clock(s.t1)
                for ax in range(4):
                    exp = (s.v0[ax] + s.v1[ax]) / 2 * dt
                    if abs((s.p1[ax] - s.p0[ax]) - exp) > tol:
                        rep.bad("kin", f"line {g.line}: axis {ax} moves {s.p1[ax] - s.p0[ax]} but mean velocity x time is {exp}")
                ps = []
                for v in (s.v0, s.v1):
                    # along the move, with the E axis in proportion
                    c = sum(x * d for x, d in zip(v, m.dirv)) / sum(d * d for d in m.dirv)
                    if maxdiff(v, [c * d for d in m.dirv]) > TV * (1 + m.V):
                        rep.bad("kin", f"line {g.line}: velocity {v} is not along the move {m.dirv}")
                    if c < -TV * (1 + m.V):
                        rep.bad("kin", f"line {g.line}: velocity {v} against the direction of the move")
                    if c > m.V * (1 + TV) + 1e-10:
                        rep.bad("cap", f"line {g.line}: speed {c} above the programmed {m.V}")
                    vmax = max(vmax, c)
                    ps.append(c)
                dv = ps[1] - ps[0]
                if abs(dv) > TV * (1 + m.V):
                    rep.count("accelerations")
                    # rate of change of the speed is the programmed acceleration; time stamps carry rounding noise
                    noise = 1e-8 * abs(dv) + 1e-10 * m.V + m.acc * clock(s.t1)
                    if abs(abs(dv) - m.acc * dt) > noise + 1e-10:
                        rep.bad("kin", f"line {g.line}: speed changes by {dv} in {dt}, acceleration {m.acc} is programmed")
            vb = math.sqrt(sum(x * x for x in g.segs[0].v0)) if m.eonly else norm3(g.segs[0].v0)
            ve = math.sqrt(sum(x * x for x in g.segs[-1].v1)) if m.eonly else norm3(g.segs[-1].v1)
            # speed reached
            pk = plan.peak_speed(vb, ve, m.V, m.acc, m.d)
            if pk >= m.V * (1 - 1e-12):
                rep.count("cruises")
            if vmax < pk * (1 - TC) - TC:
                rep.bad("reach", f"line {g.line}: peak speed {vmax}, but {pk} is possible (programmed {m.V})")
            dur = g.segs[-1].t1 - g.segs[0].t0
            tt = plan.profile_time(vb, ve, m.V, m.acc, m.d)
            if abs(dur - tt) > 1e-9 * (1 + tt) + clock(g.segs[-1].t1):
                rep.bad("reach", f"line {g.line}: takes {dur} s, the speed profile from {vb} over {m.V} to {ve} takes {tt} s")
            # within the move
            for a, b in zip(g.segs, g.segs[1:]):
                if maxdiff(a.v1, b.v0) > TV * (1 + m.V):
                    rep.bad("cont", f"line {g.line}: velocity jumps within the move from {a.v1} to {b.v0}")
            # at the corner before
            prev = groups[k - 1] if k else None
            x_in = 0.0 if m.eonly else vb
            if prev is None or prev.dwell is not None or prev.move is None or prev.move.eonly:
                if not m.eonly:
                    rep.count("starts_from_rest")
                    if vb > TV * (1 + m.V):
                        rep.bad("rest", f"line {g.line}: begins with {vb} after standstill")
            else:
                if abs(v_in - x_in) > TV * (1 + max(v_in, x_in)):
                    rep.bad("cont", f"line {g.line}: begins with {x_in} but the move before ended with {v_in}")
                if not m.eonly:
                    rep.count("corners")
                    J = prev.move.J
                    got = max(v_in, x_in)
                    if got > J * (1 + TC) + TC:
                        rep.bad("corner", f"corner before line {g.line}: passed with {got}, {fw} allows {J}")
                    if J < min(prev.move.V, m.V) * (1 - 1e-9) and abs(got - J) < TC * (1 + J):
                        rep.count("corner_rule_binding")
            if m.eonly:
                rep.count("extruder_only")
                travel_before = prev is not None and prev.dwell is None and prev.move is not None
                lim0 = 2 * prev.move.jerk if fw == "marlin_jerk" and travel_before else 0.0
                if vb > lim0 * (1 + TV) + TV * (1 + m.V):
                    rep.bad("corner", f"line {g.line}: extruder-only move begins with speed {vb}")
                if ve > TV * (1 + m.V):
                    rep.bad("rest", f"line {g.line}: extruder-only move ends with speed {ve}")
            v_in = 0.0 if m.eonly else ve
            # before standstill
            nxt = groups[k + 1] if k + 1 < len(groups) else None
            if not m.eonly:
                if g.dwell is not None or (nxt is not None and nxt.move is None):
                    rep.count("stops_for_dwell")
                    if ve > TV * (1 + m.V):
                        rep.bad("rest", f"line {g.line}: ends with {ve} before a dwell")
                elif nxt is not None and nxt.move.eonly:
                    if ve > TV * (1 + m.V):
                        rep.bad("cont", f"line {g.line}: ends with {ve} before an extruder-only move")
                elif nxt is None:
                    if ve > m.J * (1 + TC) + TC:
                        rep.bad("corner", f"line {g.line}: the print ends with speed {ve}, {fw} allows {m.J}")
                # optimum
                for what, got, exp in (("begins", vb, m.vb), ("ends", ve, m.ve)):
                    if abs(got - exp) > TC * (1 + exp):
                        rep.bad("opt", f"line {g.line}: {what} with {got}, the look-ahead optimum is {exp}")
                if m.ve < m.lim * (1 - 1e-9) - 1e-9:
                    rep.count("lookahead_binding")
        if g.dwell is not None:
            rep.count("dwells")
            tot = sum(s.t1 - s.t0 for s in g.dsegs)
            if abs(tot - g.dwell.pause) > TT * (1 + (g.dsegs[-1].t1 if g.dsegs else 0)):
                rep.bad("dwell", f"line {g.line}: pauses for {tot} s instead of {g.dwell.pause} s")
            for s in g.dsegs:
                if max(maxdiff(s.p0, g.b), maxdiff(s.p1, g.b)) > TP or max(map(abs, s.v0 + s.v1)) > 1e-9:
                    rep.bad("dwell", f"line {g.line}: nozzle not at standstill at {g.b} during the pause")
            if g.dwell.pause > 0:
                rep.count("positive_dwells")
            v_in = 0.0
    # total time against the optimum of the reference planner
    eo = any(m.kind == "move" and m.eonly for m in mv)
    if not eo:
        tot = sum(plan.profile_time(m.vb, m.ve, m.V, m.acc, m.d) if m.kind == "move" else m.pause for m in mv)
        end = blocks[-1][-1].t1
        if abs(tot - end) > 1e-9 * (1 + tot):
            rep.bad("opt", f"print time {end}, reference planner {tot}")
        rep.count("total_times")
    return rep


def run(case, rep=None):
    """Simulate and check -> (Run, Report, ref states)."""
    rep = rep or Report()
    st = interp.interpret(case["lines"], case["setup"])
    r = sut.simulate(case)
    if r.error:
        rep.bad("crash", f"simulation failed: {r.error[:300]}")
        return r, rep, st
    blocks = sut.trace(r.sim)
    r.blocks = blocks
    check(st, case["setup"]["firmware"], blocks, rep)
    return r, rep, st


def at(segs, t):
    """All trajectory states (pos, vel) consistent with time t (two at a boundary) from the recorded segments."""
    out = []
    for s in segs:
        if s.t0 - 1e-12 * (1 + t) <= t <= s.t1 + 1e-12 * (1 + t):
            dt = s.t1 - s.t0
            u = min(max(t - s.t0, 0.0), dt)
            a = [(y - x) / dt if dt > 0 else 0.0 for x, y in zip(s.v0, s.v1)]
            out.append(([p + v * u + 0.5 * c * u * u for p, v, c in zip(s.p0, s.v0, a)], [v + c * u for v, c in zip(s.v0, a)]))
    return out
