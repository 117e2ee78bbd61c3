"""Reference model: re-computes what grazer's results have to satisfy.

Written from the equations in the user guide and the literature, in Python,
sharing no code with grazer.  Every function takes the problem ("net", see
netgen.py) and the parsed states.json and reports the deviations it finds.
"""
import math
from netgen import interp, si, control_grid, state_grid, CONTROLLED

BAR = 1e5
RHO0 = 0.785
T0 = 273.15
TCRIT = 192.033
Z0 = 1.005
P0 = 1.01325e5
PCRIT = 46.4512e5
T = 283.15
ALPHA = 0.257 / PCRIT - 0.533 * TCRIT / (PCRIT * T)
ETA = 1e-5
C2 = P0 * T / (Z0 * T0 * RHO0)
KAPPA = 60.0


def rho_of_p(p):
    return p / (C2 * (1 + ALPHA * p))


def p_of_rho(rho):
    return C2 * rho / (1 - ALPHA * C2 * rho)


def reynolds(q, dia):
    return 4 * RHO0 * abs(q) / (math.pi * dia * ETA)


def swamee_jain(Re, dia, rough):
    a = math.log10(rough / (3.7 * dia) + 5.74 / Re ** 0.9)
    return 0.25 / (a * a)


def dswamee_jain(Re, dia, rough):
    inner = rough / (3.7 * dia) + 5.74 / Re ** 0.9
    a = math.log10(inner)
    da = (-0.9 * 5.74 * Re ** -1.9) / (inner * math.log(10))
    return -0.5 / a ** 3 * da


def friction(Re, dia, rough):
    if Re < 2000:
        return 64 / Re
    if Re > 4000:
        return swamee_jain(Re, dia, rough)
    # cubic Hermite curve between the two laws
    h = 2000.0
    t = (Re - 2000) / h
    y0, m0 = 64 / 2000.0, -64 / 2000.0 ** 2
    y1, m1 = swamee_jain(4000.0, dia, rough), dswamee_jain(4000.0, dia, rough)
    return ((2 * t ** 3 - 3 * t ** 2 + 1) * y0 + (t ** 3 - 2 * t ** 2 + t) * h * m0
            + (-2 * t ** 3 + 3 * t ** 2) * y1 + (t ** 3 - t ** 2) * h * m1)


def flux(rho, q, A):
    return (RHO0 / A * q, A / RHO0 * p_of_rho(rho) + RHO0 / A * q * q / rho)


def source(rho, q, dia, rough):
    A = math.pi * dia * dia / 4
    if q == 0:
        return 0.0
    Re = reynolds(q, dia)
    return -RHO0 / (2 * A * dia) * friction(Re, dia, rough) * abs(q) * q / rho


def smoothed_power(q, gas2power, power2gas):
    """Documented conversion: linear beyond +-60, a polynomial between."""
    if q > KAPPA:
        return gas2power * q
    if q < -KAPPA:
        return power2gas * q
    r = q / KAPPA
    d = power2gas - gas2power
    return q * (0.5 * (gas2power + power2gas) - 0.75 * d * r + 0.25 * d * r ** 3)


# ------------------------------------------------------------------- output
class Out:
    """states.json, indexed; structural complaints are collected."""

    def __init__(self, net, states):
        self.net = net
        self.err = []
        self.data = {}
        self.extra = {}
        kinds = {n["id"]: ("nodes", n["type"]) for n in net["nodes"]}
        kinds.update({e["id"]: ("connections", e["type"]) for e in net["edges"]})
        if not isinstance(states, dict):
            self.err.append(("no-output", "no states"))
            return
        for cls in states:
            for typ in states[cls]:
                for o in states[cls][typ]:
                    i = o["id"]
                    if i in self.data:
                        self.err.append(("duplicate", "%s reported twice" % i))
                    if kinds.get(i) != (cls, typ):
                        self.err.append(("misfiled", "%s under %s/%s" % (i, cls, typ)))
                    self.data[i] = o["data"]
                    self.extra[i] = {k: v for k, v in o.items() if k != "data"}
        self.times = None
        for i in sorted(self.data):
            self.times = [s["time"] for s in self.data[i]]
            break

    def steps(self):
        return len(self.times or [])

    def pq(self, eid, k, end):
        """(pressure in bar, flow) at the start (0) or end (1) of an edge."""
        s = self.data[eid][k]
        i = 0 if end == 0 else -1
        return s["pressure"][i]["value"], s["flow"][i]["value"]


def finite(x):
    return isinstance(x, (int, float)) and math.isfinite(x)


def check_structure(net, out):
    """Completeness, times, initial values: the list of complaints."""
    bad = list(out.err)
    want = [e["id"] for e in net["edges"] if e["type"] != "Transmissionline"]
    want += [n["id"] for n in net["nodes"]
             if n["type"] in ("Vphinode", "PVnode", "PQnode", "StochasticPQnode",
                              "ExternalPowerplant")]
    for w in want:
        if w not in out.data:
            bad.append(("missing", "%s not reported" % w))
    for i in out.data:
        if i not in want:
            bad.append(("surplus", "%s reported" % i))
    return bad


def gas_edges(net):
    return [e for e in net["edges"] if e["type"] != "Transmissionline"]


def size(points, k):
    """The largest k-th value of a series: interpolation between large values
    is rounded relative to them."""
    return max(abs(v[k]) for _, v in points)


def check_gas_nodes(net, out, tol, stats=None):
    bad = []
    att = {n["id"]: [] for n in net["nodes"]}
    for e in gas_edges(net):
        att[e["from"]].append((e["id"], 0, +1))
        if e["type"] != "Gaspowerconnection":
            att[e["to"]].append((e["id"], 1, -1))
    for n in net["nodes"]:
        t = n["type"]
        if t not in ("Source", "Sink", "Innode", "ConstraintSink",
                     "Pressureboundarynode"):
            continue
        es = att[n["id"]]
        if not es:
            continue
        for k in range(1, out.steps()):
            time = out.times[k]
            vals = [(eid, s, out.pq(eid, k, end)) for eid, end, s in es]
            if not all(finite(x) for _, _, v in vals for x in v):
                bad.append(("nonfinite", "%s t=%r: %r" % (n["id"], time, vals)))
                continue
            if t == "Pressureboundarynode":
                want = interp(net["boundary"][n["id"]], time)[0]
                for eid, _, (p, q) in vals:
                    if abs(p - want) > tol(size(net["boundary"][n["id"]], 0)):
                        bad.append(("pressure-boundary",
                                    "%s t=%r: edge %s has p=%r, prescribed %r" % (
                                        n["id"], time, eid, p, want)))
                continue
            ps = [v[0] for _, _, v in vals]
            if max(ps) - min(ps) > tol(max(ps)) * len(ps):
                bad.append(("pressure-equal", "%s t=%r: pressures %r" % (
                    n["id"], time, [(e, v[0]) for e, _, v in vals])))
            inflow = 0.0
            if t != "Innode":
                inflow = interp(net["boundary"][n["id"]], time)[0]
                if t != "Source":
                    inflow = -inflow
            s = sum(sg * v[1] for _, sg, v in vals)
            mag = sum(abs(v[1]) for _, _, v in vals) + abs(inflow)
            if t != "Innode":
                mag += size(net["boundary"][n["id"]], 0)
            if abs(s - inflow) > tol(mag):
                bad.append(("balance", "%s (%s) t=%r: edges take %r, prescribed "
                            "inflow %r; %r" % (n["id"], t, time, s, inflow, vals)))
            if stats is not None:
                stats["balance"] = stats.get("balance", 0) + 1
                if len(es) > 2:
                    stats["junction"] = stats.get("junction", 0) + 1
    return bad


def pipe_points(pipe):
    L = si(pipe["length"])
    dx = pipe["desired_delta_x"]
    # rounding of L/dx may go either way when it is almost integral
    return {max(1, math.ceil(L / dx * (1 + s))) + 1 for s in (-1e-9, 0, 1e-9)}


def check_pipes(net, out, tolerance, stats=None):
    bad = []
    for e in net["edges"]:
        if e["type"] != "Pipe":
            continue
        L, dia, rough = si(e["length"]), si(e["diameter"]), si(e["roughness"])
        A = math.pi * dia * dia / 4
        data = out.data[e["id"]]
        xs = [v["x"] for v in data[0]["pressure"]]
        if len(xs) not in pipe_points(e):
            bad.append(("cells", "%s: %d points for length %r and cell size %r" % (
                e["id"], len(xs), L, e["desired_delta_x"])))
            continue
        n = len(xs) - 1
        for k, s in enumerate(data):
            for name in ("pressure", "flow"):
                ys = [v["x"] for v in s[name]]
                if len(ys) != len(xs) or any(
                        abs(y - i * L / n) > 1e-7 * L for i, y in enumerate(ys)):
                    bad.append(("positions", "%s step %d: %s at %r" % (
                        e["id"], k, name, ys)))
        if bad:
            continue
        dx = L / n
        regimes = set()
        for k in range(1, out.steps()):
            dt = out.times[k] - out.times[k - 1]

            def st(j, i):
                p = data[j]["pressure"][i]["value"]
                q = data[j]["flow"][i]["value"]
                if not (finite(p) and finite(q)):
                    return None
                return rho_of_p(p * BAR), q
            gained = 0.0
            ok = True
            for i in range(n):
                ll, lr, nl, nr = st(k - 1, i), st(k - 1, i + 1), st(k, i), st(k, i + 1)
                if None in (ll, lr, nl, nr):
                    bad.append(("nonfinite", "%s step %d" % (e["id"], k)))
                    ok = False
                    break
                fl, fr = flux(*nl, A), flux(*nr, A)
                sl, sr = source(*nl, dia, rough), source(*nr, dia, rough)
                res = [0.5 * (nl[c] + nr[c]) - 0.5 * (ll[c] + lr[c])
                       - dt / dx * (fl[c] - fr[c]) for c in (0, 1)]
                res[1] -= 0.5 * dt * (sl + sr)
                scale = [abs(nl[c]) + abs(nr[c]) + abs(ll[c]) + abs(lr[c])
                         + dt / dx * (abs(fl[c]) + abs(fr[c])) for c in (0, 1)]
                scale[1] += 0.5 * dt * (abs(sl) + abs(sr))
                for c, name in ((0, "mass"), (1, "momentum")):
                    lim = 3 * tolerance + 3e-13 * scale[c]
                    if not abs(res[c]) <= lim:
                        bad.append(("pipe-" + name,
                                    "%s step %d cell %d: residual %g > %g (Re %.6g, "
                                    "%.6g)" % (e["id"], k, i, res[c], lim,
                                               reynolds(nl[1], dia),
                                               reynolds(nr[1], dia))))
                gained += dx * 0.5 * (nl[0] + nr[0] - ll[0] - lr[0])
                for q in (nl[1], nr[1]):
                    Re = reynolds(q, dia)
                    regimes.add("laminar" if Re < 2000 else "transition"
                                if Re <= 4000 else "turbulent")
                    if q < 0:
                        regimes.add("reverse")
                if abs(sl) * dt * 0.5 > 100 * tolerance:
                    regimes.add("friction-visible")
            if ok:
                q0, q1 = data[k]["flow"][0]["value"], data[k]["flow"][-1]["value"]
                through = dt * RHO0 / A * (q0 - q1)
                lim = dx * n * 3 * tolerance + 1e-11 * (
                    dt * RHO0 / A * (abs(q0) + abs(q1)) + L * 100)
                if abs(gained - through) > lim:
                    bad.append(("pipe-content", "%s step %d: gained %r, in minus "
                                "out %r" % (e["id"], k, gained, through)))
        if stats is not None:
            for r in regimes:
                stats[r] = stats.get(r, 0) + 1
            stats["cells%d" % min(n, 4)] = stats.get("cells%d" % min(n, 4), 0) + 1
    return bad


def controls_at(net, cid, time):
    g = control_grid(net)
    pts = [[t, interp(net["control"][cid], t)] for t in g]
    return interp(pts, time)


def check_short(net, out, tol, stats=None, controls=None):
    bad = []
    for e in net["edges"]:
        t = e["type"]
        if t not in ("Shortpipe", "Compressorstation", "Controlvalve"):
            continue
        for k in range(1, out.steps()):
            (p0, q0), (p1, q1) = out.pq(e["id"], k, 0), out.pq(e["id"], k, 1)
            if not all(finite(v) for v in (p0, q0, p1, q1)):
                bad.append(("nonfinite", "%s step %d" % (e["id"], k)))
                continue
            c = most = 0.0
            if t in CONTROLLED:
                most = size(net["control"][e["id"]] if controls is None else
                            controls[e["id"]], 0)
                if controls is not None:
                    c = interp(controls[e["id"]], out.times[k])[0]
                else:
                    c = controls_at(net, e["id"], out.times[k])[0]
                if t == "Controlvalve":
                    c = -c
            if abs((p1 - p0) - c) > tol(abs(p1) + abs(p0) + most):
                bad.append(("short-pressure", "%s (%s) t=%r: pressure rises by %r, "
                            "control says %r" % (e["id"], t, out.times[k], p1 - p0, c)))
            if abs(q1 - q0) > tol(abs(q0) + abs(q1)):
                bad.append(("short-flow", "%s (%s) t=%r: flow %r in, %r out" % (
                    e["id"], t, out.times[k], q0, q1)))
            if stats is not None and c != 0:
                stats[t] = stats.get(t, 0) + 1
    return bad


def power_sums(net, out, k):
    """{node: (P, Q)} from the reported voltages and phases."""
    V = {}
    node = {}
    for n in net["nodes"]:
        if n["id"] in out.data and "G" in n:
            s = out.data[n["id"]][k]
            V[n["id"]] = (s["V"], s["phi"])
            node[n["id"]] = n
    res = {i: [node[i]["G"] * V[i][0] ** 2, -node[i]["B"] * V[i][0] ** 2,
               abs(node[i]["G"]) * V[i][0] ** 2 + abs(node[i]["B"]) * V[i][0] ** 2]
           for i in V}
    for e in net["edges"]:
        if e["type"] != "Transmissionline":
            continue
        a, b = e["from"], e["to"]
        for i, j in ((a, b), (b, a)):
            vv = V[i][0] * V[j][0]
            ph = V[i][1] - V[j][1]
            res[i][0] += vv * (e["G"] * math.cos(ph) + e["B"] * math.sin(ph))
            res[i][1] += vv * (e["G"] * math.sin(ph) - e["B"] * math.cos(ph))
            res[i][2] += abs(vv) * (abs(e["G"]) + abs(e["B"]))
    return res


def check_power(net, out, tol, stats=None):
    bad = []
    nodes = [n for n in net["nodes"] if "G" in n]
    if not nodes:
        return bad
    for k in range(1, out.steps()):
        for n in nodes:
            s = out.data[n["id"]][k]
            if not all(finite(s[x]) for x in ("P", "Q", "V", "phi")):
                return [("nonfinite", "%s step %d: %r" % (n["id"], k, s))]
        sums = power_sums(net, out, k)
        for n in nodes:
            i, t = n["id"], n["type"]
            s = out.data[i][k]
            P, Q, mag = sums[i]
            lim = tol(mag)
            for name, val in (("P", P), ("Q", Q)):
                if abs(s[name] - val) > lim:
                    bad.append(("power-" + name, "%s (%s) t=%r: reported %s=%r, "
                                "voltages imply %r" % (i, t, out.times[k], name,
                                                       s[name], val)))
            want = interp(net["boundary"][i], out.times[k])
            pairs = {"Vphinode": ("V", "phi"), "ExternalPowerplant": ("V", "phi"),
                     "PVnode": ("P", "V"), "PQnode": ("P", "Q")}.get(t)
            if pairs:
                for j, (name, w) in enumerate(zip(pairs, want)):
                    got = s[name] if name in ("V", "phi") else {"P": P, "Q": Q}[name]
                    if abs(got - w) > tol(mag + size(net["boundary"][i], j)):
                        bad.append(("power-prescribed", "%s (%s) t=%r: %s=%r, "
                                    "prescribed %r" % (i, t, out.times[k], name,
                                                       got, w)))
                if stats is not None:
                    stats[t] = stats.get(t, 0) + 1
    return bad


def check_coupling(net, out, tol, stats=None):
    bad = []
    for e in net["edges"]:
        if e["type"] != "Gaspowerconnection":
            continue
        for k in range(1, out.steps()):
            p, q = out.pq(e["id"], k, 0)
            if not (finite(p) and finite(q)):
                bad.append(("nonfinite", "%s step %d" % (e["id"], k)))
                continue
            sums = power_sums(net, out, k)
            P = sums[e["to"]][0]
            want = smoothed_power(q, e["gas2power_q_coeff"], e["power2gas_q_coeff"])
            if abs(P - want) > tol(sums[e["to"]][2] + abs(want)):
                bad.append(("coupling", "%s t=%r: flow %r makes %r, plant %s feeds "
                            "%r" % (e["id"], out.times[k], q, want, e["to"], P)))
            rep = out.data[e["to"]][k]["P"]
            if abs(rep - want) > tol(sums[e["to"]][2] + abs(want)):
                bad.append(("coupling-reported", "%s t=%r: flow %r makes %r, plant "
                            "reports %r" % (e["id"], out.times[k], q, want, rep)))
            if stats is not None:
                z = "gas2power" if q > KAPPA else "power2gas" if q < -KAPPA else \
                    "smoothing+" if q > 0 else "smoothing-"
                stats[z] = stats.get(z, 0) + 1
    return bad


def check_times(net, out):
    """The documented time grid."""
    bad = []
    want = state_grid(net)
    s = net["sim"]
    span = s["end_time"] - s["start_time"]
    eps = 1e-9 * max(abs(s["start_time"]), abs(s["end_time"]), span)
    for i in sorted(out.data):
        ts = [x.get("time") for x in out.data[i]]
        n_ok = set()
        for z in (-1e-12, 0, 1e-12):
            m = math.ceil(span / s["desired_delta_t"] * (1 + z))
            n_ok.add(m + 1)
            # the step width may be rounded before it is used again
            n_ok.add(math.ceil(span / (span / m)) + 1)
        if len(ts) not in n_ok:
            bad.append(("time-count", "%s: %d times, expected %d" % (
                i, len(ts), len(want))))
            continue
        n = len(ts) - 1
        if ts[0] != s["start_time"]:
            bad.append(("time-start", "%s: starts at %r" % (i, ts[0])))
        if abs(ts[-1] - s["end_time"]) > eps:
            bad.append(("time-end", "%s: ends at %r" % (i, ts[-1])))
        for k, t in enumerate(ts):
            if abs(t - (s["start_time"] + span * k / n)) > eps:
                bad.append(("time-grid", "%s: time %d is %r" % (i, k, t)))
                break
        if any(b <= a for a, b in zip(ts, ts[1:])):
            bad.append(("time-order", "%s: %r" % (i, ts)))
        if out.times is not None and ts != out.times:
            bad.append(("time-differ", "%s differs from the others" % i))
    return bad


def check_initial(net, out):
    bad = []
    for i, pts in net["initial"].items():
        if i not in out.data:
            continue
        s = out.data[i][0]
        if "V" in s:
            for name, w in zip(("V", "phi"), pts[0][1]):
                if abs(s[name] - w) > 1e-12 * (1 + abs(w)):
                    bad.append(("initial", "%s: %s starts at %r, given %r" % (
                        i, name, s[name], w)))
            continue
        for k, name in enumerate(("pressure", "flow")):
            for v in s[name]:
                w = interp(pts, v["x"])[k]
                if not finite(v["value"]) or abs(v["value"] - w) > 1e-9 * (1 + abs(w)):
                    bad.append(("initial", "%s: %s at x=%r starts at %r, given %r" % (
                        i, name, v["x"], v["value"], w)))
    return bad
