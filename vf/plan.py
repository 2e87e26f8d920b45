"""Independent reference motion planner (two-pass look-ahead with trapezoidal profiles)."""

import math

FW = ("marlin_jerk", "marlin_jd", "klipper", "MKA", None)


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def norm(v):
    return math.sqrt(sum(x * x for x in v))


class Move:
    __slots__ = ("kind", "a", "b", "delta", "d", "V", "acc", "jerk", "dirv", "vel", "line", "ia", "ib",
                 "J", "vb", "ve", "lim", "pause", "eonly", "layer")

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)


def program_velocity(pa, pb, feed):
    delta = sub(pb, pa)
    d = norm(delta[:3])
    if d == 0:
        d = abs(delta[3])
    if d == 0:
        return [0.0] * 4, 0.0, delta
    return [feed * x / d for x in delta], d, delta


def corner_limit(fw, v0, v1, st, d0):
    """Highest speed at which the corner between programmed velocities v0 -> v1 may be taken."""
    n0, n1 = norm(v0[:3]), norm(v1[:3])
    V, acc, jerk = st.feed, st.p_acc, st.jerk
    if fw == "marlin_jd":
        if jerk == 0 or n0 == 0 or n1 == 0:
            return 0.0
        cos_t = -sum(a * b for a, b in zip(v0[:3], v1[:3])) / (n0 * n1)
        s = math.sqrt(max(0.0, (1 - cos_t) / 2))
        if s >= math.sin(math.radians(81)):
            return V
        if s <= math.sin(math.radians(9)):
            return 0.0
        delta = 0.4 * jerk * jerk / acc
        return min(V, math.sqrt(acc * delta * s / (1 - s)))
    if fw == "klipper":
        if n0 == 0 or n1 == 0:
            return 0.0
        cos_t = max(-sum(a * b for a, b in zip(v0[:3], v1[:3])) / (n0 * n1), -0.999999)
        if cos_t > 0.999999:
            return 0.0
        s = math.sqrt(0.5 * (1 - cos_t))
        r = jerk * jerk * (math.sqrt(2) - 1) / acc * s / (1 - s)
        tan = s / math.sqrt(0.5 * (1 + cos_t))
        return math.sqrt(min(acc * r, 0.5 * d0 * tan * acc, V * V))
    if fw == "marlin_jerk":
        j2 = 2 * jerk
        diff = norm(sub(v0[:3], v1[:3]))
        return n0 if diff <= j2 else n0 * j2 / diff
    if fw == "MKA":
        return mka_limit(v0, v1, jerk)
    return 0.0


def mka_limit(v0, v1, jerk, dedent=True):
    n0, n1 = norm(v0[:3]), norm(v1[:3])
    v = min(n0, n1)
    if v <= 0:
        return 0.0
    fac = v / n0
    f = 1.0
    lim = False
    for e, x in zip(v0, v1):
        x *= fac
        if lim:
            e, x = e * f, x * f
        if x > e:
            j = (x - e) if (e > 0 or x < 0) else max(x, -e)
        else:
            j = (e - x) if (e < 0 or x > 0) else max(-x, e)
        if j > jerk:
            f *= jerk / j
            lim = True
        if lim and not dedent:
            v *= f
    if lim and dedent:
        v *= f
    return v


def build_moves(states, eps=0.0):
    """Moves and dwells, in order, from reference states."""
    out = []
    for i in range(1, len(states)):
        A, B = states[i - 1], states[i]
        vel, d, delta = program_velocity(A.pos, B.pos, B.feed)
        if d > eps:
            m = Move()
            m.kind, m.a, m.b, m.delta, m.d, m.V, m.acc, m.jerk = "move", A.pos, B.pos, delta, d, B.feed, B.p_acc, B.jerk
            m.vel, m.line, m.ia, m.ib, m.layer = vel, B.line, i - 1, i, B.layer
            m.dirv = [x / d for x in delta]
            m.eonly = norm(delta[:3]) == 0
            out.append(m)
        if B.pause is not None:
            m = Move()
            m.kind, m.a, m.b, m.delta, m.d, m.V, m.pause, m.line, m.ia, m.ib, m.layer = (
                "dwell", B.pos, B.pos, [0.0] * 4, 0.0, 0.0, B.pause, B.line, i, i, B.layer)
            m.eonly = False
            out.append(m)
    return out


def plan(states, fw, limit=corner_limit):
    """Fill J (corner rule), lim (after cap by the next move), vb, ve (look-ahead optimum)."""
    mv = build_moves(states)
    moves = [m for m in mv if m.kind == "move"]
    for k, m in enumerate(moves):
        v1 = moves[k + 1].vel if k + 1 < len(moves) else [0.0] * 4
        d0 = norm(moves[k + 1].delta[:3]) if k + 1 < len(moves) else 0.0
        m.J = limit(fw, m.vel, v1, states[m.ib], d0)
    for k, m in enumerate(mv):
        nxt = mv[k + 1] if k + 1 < len(mv) else None
        if m.kind == "dwell" or m.eonly:
            m.lim = 0.0
        elif nxt is None:
            m.lim = m.J
        elif nxt.kind == "dwell" or nxt.eonly:
            m.lim = 0.0
        else:
            m.lim = min(m.J, nxt.V)
    v = 0.0
    for m in mv:
        m.vb = v
        if m.kind == "dwell" or m.eonly:
            m.vb = 0.0
            v = 0.0
        else:
            v = min(m.lim, math.sqrt(v * v + 2 * m.acc * m.d))
        m.ve = v
    v = None
    for m in reversed(mv):
        if v is not None:
            m.ve = min(m.ve, v)
        if m.kind == "move" and not m.eonly:
            m.vb = min(m.vb, math.sqrt(m.ve * m.ve + 2 * m.acc * m.d))
        v = m.vb if not m.eonly else 0.0
    return mv


def profile_time(vb, ve, V, a, d):
    """Duration of the fastest profile from vb to ve over d with cruise cap V."""
    up = (V * V - vb * vb) / (2 * a)
    dn = (V * V - ve * ve) / (2 * a)
    if up + dn <= d:
        return (V - vb) / a + (V - ve) / a + (d - up - dn) / V
    vp = math.sqrt(max(a * d + (vb * vb + ve * ve) / 2, max(vb, ve) ** 2))
    return (vp - vb) / a + (vp - ve) / a


def peak_speed(vb, ve, V, a, d):
    vp = math.sqrt(max(a * d + (vb * vb + ve * ve) / 2, max(vb, ve) ** 2))
    return min(V, vp)
