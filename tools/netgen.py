"""Generation of grazer problems, and writing them as input files.

A problem ("net") is plain JSON data:
  nodes:    [{"id", "type", ...parameters}]
  edges:    [{"id", "type", "from", "to", ...parameters}]
  boundary: {id: [[time, [values]], ...]}
  initial:  {id: [[x, [values]], ...]}
  control:  {id: [[time, [value]], ...]}
  seeds:    {id: [...]}                 (stochastic nodes only)
  sim:      simulation settings
  control_settings, constraint_settings: objects or None
  defaults: {type: {property: value}}
"""
import json
import math
import os

GASNODES = ("Source", "Sink", "Innode", "ConstraintSink", "Pressureboundarynode")
SHORT = ("Shortpipe", "Compressorstation", "Controlvalve")
CONTROLLED = ("Compressorstation", "Controlvalve")
POWERNODES = ("Vphinode", "PVnode", "PQnode", "StochasticPQnode", "ExternalPowerplant")

LEN_UNITS = {"m": 1.0, "km": 1e3, "cm": 1e-2, "mm": 1e-3, "dm": 0.1}


def length(si, unit="m"):
    return {"value": si / LEN_UNITS[unit], "unit": unit}


def si(v):
    u = v["unit"]
    f = 1.0
    if " " in u:
        a, u = u.split(" ", 1)
        f = float(a)
    return v["value"] * f * LEN_UNITS[u]


def fresh_ids(d, prefix, n):
    """Ids whose alphabetical order differs from the order of creation."""
    style = d.raw(3)
    res = []
    for i in range(n):
        if style == 0:
            res.append("%s%d" % (prefix, i))
        elif style == 1:
            res.append("%s%d" % (prefix, (i * 7 + 3) % 101))
        elif style == 2:
            res.append("%s_%s" % (chr(ord("z") - i % 20), prefix + str(i)))
        else:
            res.append("%s%02d" % (prefix.upper(), n - i))
    return res


# -------------------------------------------------------------------- time
def gen_times(d, max_steps=6, dts=None):
    n = d.int(1, max_steps)
    start = d.weighted([(5, 0.0), (1, -3600.0), (1, 86400.0), (1, 17.3),
                        (1, 0.1)])
    dt = dts(d) if dts else d.weighted([(3, 600.0), (2, 60.0), (2, 1800.0),
                                        (1, 3600.0), (1, 0.5), (1, 137.7)])
    ratio = d.weighted([(3, 1.0), (1, 0.9), (1, 0.51), (1, 0.999)])
    # the interval is not always a multiple of the desired step
    end = start + dt * (n - 1 + ratio)
    return start, end, dt


def grid(start, end, desired):
    """The documented grid: equally spaced, no wider than desired."""
    n = math.ceil((end - start) / desired)
    return [start + (end - start) * i / n for i in range(n)] + [end]


def gen_series(d, start, end, values, knots=None):
    """A piecewise linear series that covers [start, end]."""
    k = d.raw(3) if knots is None else knots
    before = d.weighted([(3, 0.0), (1, 0.37)]) * (end - start)
    after = d.weighted([(3, 0.0), (1, 0.61)]) * (end - start)
    fr = sorted({d.int(1, 96) / 97.0 for _ in range(k)})
    ts = [start - before] + [start + (end - start) * f for f in fr] + [end + after]
    return [[t, values(i)] for i, t in enumerate(ts)]


def lengthen(d, net):
    """Makes one series long, as a measured one would be, without changing the
    function it stands for."""
    series = [t[i] for t in (net["boundary"], net["control"], net["initial"])
              for i in sorted(t) if len(t[i]) > 1]
    # the data of short edges are given at exactly two places
    series = [s for s in series if not (s[0][0] == 0 and s[-1][0] == 1)]
    if not series:
        return
    pts = d.choice(series)
    n = d.weighted([(1, 130), (2, 1100), (1, 2500)])
    (t0, v0), (t1, v1) = pts[0], pts[1]
    pts[1:1] = [[t0 + (t1 - t0) * i / n, [a + (b - a) * i / n
                                          for a, b in zip(v0, v1)]]
                for i in range(1, n)]


# --------------------------------------------------------------------- gas
def gen_gas(d, net, start, end, max_clusters=4, types=None, prefix="g",
            allow_pb=True, shorts=True, regime=None):
    """Adds a well-posed gas network: clusters of nodes joined by short edges
    (a tree in each), joined by pipes."""
    types = types or SHORT
    hub = max_clusters >= 3 and d.bool(0.06)
    K = d.int(4, max_clusters + 4) if hub else d.int(1, max_clusters)
    regime = regime or d.weighted([(5, "normal"), (2, "small"), (2, "reverse"),
                                   (1, "tiny")])
    scale = {"normal": 30.0, "small": 1.0, "reverse": 20.0, "tiny": 0.01}[regime]
    clusters = []
    pos_nodes = []
    for k in range(K):
        m = d.weighted([(3, 1), (2, 2), (1, 3)]) if shorts and not hub else 1
        if K == 1 and m == 1:
            m = 2
        clusters.append(list(range(len(pos_nodes), len(pos_nodes) + m)))
        pos_nodes += [k] * m
    N = len(pos_nodes)
    ids = fresh_ids(d, prefix + "n", N)
    if K == 1 and not shorts:
        single_pipe = True
    else:
        single_pipe = False
    # edges: (type, a, b)
    edges = []
    for c in clusters:
        if single_pipe:
            break
        for i, v in enumerate(c[1:], 1):
            u = c[d.raw(i - 1)]
            t = types[d.raw(len(types) - 1)]
            edges.append([t, u, v])
    pipes = []
    if single_pipe:
        pipes.append(["Pipe", 0, 1])
    for k in range(1, K):
        a = clusters[0 if hub and d.bool(0.9) else d.raw(k - 1)]
        pipes.append(["Pipe", d.choice(a), d.choice(clusters[k])])
    if N >= 2 and K >= 2:
        for _ in range(d.weighted([(4, 0), (2, 1), (1, 2)])):
            a = d.raw(N - 1)
            b = (a + 1 + d.raw(N - 2)) % N
            pipes.append(["Pipe", a, b])
    edges += pipes
    for e in edges:
        if d.bool(0.5):
            e[1], e[2] = e[2], e[1]
    # node types
    no_pipe_cluster = K == 1 and not single_pipe
    pb = set()
    if no_pipe_cluster:
        pb.add(d.choice(clusters[0]))
    elif allow_pb:
        for c in clusters:
            if d.bool(0.75 if not pb else 0.2):
                pb.add(d.choice(c))
    ntypes = []
    flows = {}
    for v in range(N):
        if v in pb:
            ntypes.append("Pressureboundarynode")
            continue
        t = d.weighted([(3, "Innode"), (3, "Sink"), (2, "Source"),
                        (1, "ConstraintSink")])
        ntypes.append(t)
    p0 = d.weighted([(8, (35, 70)), (1, (8, 35)), (1, (70, 130))])
    p0 = d.float(p0[0], p0[1], 2)
    big = d.bool(0.1)
    nid = lambda v: ids[v]
    for v in range(N):
        node = {"id": nid(v), "type": ntypes[v], "x": float(v),
                "y": float(v % 3)}
        net["nodes"].append(node)

    # controls first: they shape the pressures
    control_now = {}
    eids = fresh_ids(d, prefix + "e", len(edges))
    for (t, a, b), eid in zip(edges, eids):
        if t in CONTROLLED:
            base = d.float(0, 6, 2) if not big else \
                round(d.float(0.3, 1, 2) * (p0 - 2.0), 2)
            wig = d.weighted([(2, 0.0), (3, 1.5)])
            net["control"][eid] = gen_series(
                d, start, end, lambda i: [round(base + wig * d.float(-1, 1, 2), 4)])
            control_now[eid] = net["control"][eid][0][1][0]
    # pressure of every node; drops that leave no pressure are made smaller
    offs = [d.float(-1, 1, 1) for _ in clusters]
    for _ in range(20):
        pres = [None] * N
        for c, off in zip(clusters, offs):
            pres[c[0]] = p0 + off
            todo = True
            while todo:
                todo = False
                for (t, a, b), eid in zip(edges, eids):
                    if t == "Pipe" or a not in c:
                        continue
                    s = {"Shortpipe": 0.0,
                         "Compressorstation": control_now.get(eid, 0),
                         "Controlvalve": -control_now.get(eid, 0)}[t]
                    if pres[a] is not None and pres[b] is None:
                        pres[b] = pres[a] + s
                        todo = True
                    elif pres[b] is not None and pres[a] is None:
                        pres[a] = pres[b] - s
                        todo = True
            for v in c:
                if pres[v] is None:
                    pres[v] = p0
        if min(pres) > 1.2:
            break
        for eid in control_now:
            for pt in net["control"][eid]:
                pt[1][0] = round(0.7 * pt[1][0], 4)
            control_now[eid] = net["control"][eid][0][1][0]
    # boundary values
    fnodes = [v for v in range(N) if ntypes[v] in ("Source", "Sink", "ConstraintSink")]
    for v in range(N):
        t = ntypes[v]
        if t == "Pressureboundarynode":
            p = pres[v]
            wig = d.weighted([(1, 0.0), (2, 1.0)])
            net["boundary"][nid(v)] = gen_series(
                d, start, end, lambda i: [round(p + wig * d.float(-1, 1, 2), 5)])
        elif v in fnodes:
            base = scale * d.float(0.02, 1, 2)
            if regime == "reverse":
                vals = lambda i: [round(base * d.float(-1, 1, 3), 6)]
            else:
                wig = d.weighted([(1, 0.0), (2, 0.3)])
                vals = lambda i: [round(base * (1 + wig * d.float(-1, 1, 2)), 6)]
            net["boundary"][nid(v)] = gen_series(d, start, end, vals)
    if not pb and fnodes:
        # nearly balanced, else the network empties or bursts
        tot = 0.0
        for v in fnodes:
            s = 1 if ntypes[v] == "Source" else -1
            tot += s * net["boundary"][nid(v)][0][1][0]
        v = fnodes[-1]
        s = 1 if ntypes[v] == "Source" else -1
        own = s * net["boundary"][nid(v)][0][1][0]
        val = round(s * (own - tot), 6)
        for pt in net["boundary"][nid(v)]:
            pt[1][0] = round(val + 0.02 * scale * d.float(-1, 1, 1), 6)
    # edges with parameters and initial values
    for (t, a, b), eid in zip(edges, eids):
        e = {"id": eid, "type": t, "from": nid(a), "to": nid(b)}
        q0 = scale * d.weighted([(3, 0.0), (2, 0.2), (1, -0.2), (1, 1.0)])
        # the flow is not always the same all along
        dq = 0.0 if d.bool(0.5) else 0.1 * scale
        qat = lambda: round(q0 + dq * d.float(-1, 1, 2), 7)
        if t == "Pipe":
            L = round(d.log(800, 30000) if regime != "tiny" else d.log(800, 5000), 1)
            npts = d.int(1, 5)
            dx = d.weighted([(2, round(L / npts, 6)), (2, round(1.3 * L / npts, 1)),
                             (1, round(0.97 * L / npts, 1)), (1, L)])
            dia = round(d.float(0.25, 1.2, 2), 3)
            rough = round(d.log(5e-6, 5e-4), 8)
            e["length"] = length(L, d.weighted([(3, "m"), (2, "km")]))
            e["diameter"] = length(dia, d.weighted([(3, "m"), (2, "mm"), (1, "cm")]))
            e["roughness"] = length(rough, d.weighted([(3, "m"), (2, "mm")]))
            e["desired_delta_x"] = dx
            e["balancelaw"] = "Isothermaleulerequation"
            e["scheme"] = "Implicitboxscheme"
            Lr = si(e["length"])
            xs = [0.0] + sorted({round(Lr * d.int(1, 30) / 31, 3)
                                 for _ in range(d.weighted([(3, 0), (1, 1), (1, 2)]))})
            xs.append(Lr * d.weighted([(3, 1.0), (1, 1.2)]))
            net["initial"][eid] = [
                [x, [round(pres[a] + (pres[b] - pres[a]) * min(1.0, x / Lr), 6),
                     qat()]] for x in xs]
        else:
            net["initial"][eid] = [[0, [pres[a], qat()]], [1, [pres[b], qat()]]]
        net["edges"].append(e)
    return {"nodes": [nid(v) for v in range(N)], "pressure": dict(
        (nid(v), pres[v]) for v in range(N)), "pb": [nid(v) for v in pb],
        "regime": regime, "clusters": K}


# ------------------------------------------------------------------- power
def gen_power(d, net, start, end, max_nodes=5, prefix="w", stochastic=False,
              plants=0, far_phases=True):
    N = d.int(1 + plants, max_nodes + plants)
    hub = d.bool(0.1)
    if hub:
        N += d.int(1, 4)
    ids = fresh_ids(d, prefix + "n", N)
    lines = []
    for v in range(1, N):
        lines.append([0 if hub else d.raw(v - 1), v])
    # phases count modulo a full turn, and only their differences matter
    turn = d.weighted([(6, 0.0), (1, round(d.float(-4, 4, 2), 3)),
                       (1, 6.2832), (1, -62.832)])
    level = d.weighted([(6, 1.0), (1, 0.7), (1, 1.6)])
    if N >= 2:
        for _ in range(d.weighted([(3, 0), (2, 1), (1, 2)])):
            a = d.raw(N - 1)
            b = (a + 1 + d.raw(N - 2)) % N
            lines.append([a, b])
    eids = fresh_ids(d, prefix + "l", len(lines))
    diagG = [0.0] * N
    diagB = [0.0] * N
    for (a, b), eid in zip(lines, eids):
        g = round(d.float(0, 2, 2), 3)
        bb = round(d.float(3, 15, 2) if d.bool(0.8) else d.log(1, 200), 3)
        if d.bool(0.5):
            a, b = b, a
        diagG[a] += g
        diagG[b] += g
        diagB[a] -= bb
        diagB[b] -= bb
        net["edges"].append({"id": eid, "type": "Transmissionline",
                             "from": ids[a], "to": ids[b], "G": -g, "B": bb})
    plantset = list(range(N))[-plants:] if plants else []
    # the reference (voltage and phase prescribed): a plant or node 0
    types = []
    for v in range(N):
        if v in plantset:
            types.append("ExternalPowerplant")
        elif v == 0 and not (plantset and d.bool(0.5)):
            types.append("Vphinode")
        else:
            types.append(d.weighted([(3, "PQnode"), (2, "PVnode"), (1, "Vphinode")]
                                    + ([(6, "StochasticPQnode")] if stochastic else [])))
    if stochastic and "StochasticPQnode" not in types and N > 1:
        types[-1 - len(plantset)] = "StochasticPQnode" if N - len(plantset) > 1 else types[-1 - len(plantset)]
    if not any(t in ("Vphinode", "ExternalPowerplant") for t in types):
        types[0] = "Vphinode"
    for v in range(N):
        t = types[v]
        node = {"id": ids[v], "type": t, "x": 0.5 * v, "y": -1.0 * v,
                "G": round(diagG[v] + d.weighted([(2, 0.0), (1, 0.1)]), 6),
                "B": round(diagB[v] + d.weighted([(2, 0.0), (1, 0.2)]), 6)}
        wig = d.weighted([(1, 0.0), (2, 1.0)])
        if t in ("Vphinode", "ExternalPowerplant"):
            # (the same results cannot be demanded then: there are many solutions)
            far = turn + d.weighted([(8, 0.0)] if not far_phases else [(8, 0.0), (1, 2 * math.pi), (1, -4 * math.pi),
                                     (1, round(d.float(-3, 3, 2), 2))])
            vals = lambda i: [round(level + 0.03 * wig * d.float(-1, 1, 2), 5),
                              round(far + 0.05 * wig * d.float(-1, 1, 2), 5)]
        elif t == "PVnode":
            base = d.float(-0.5, 0.7, 2)
            vals = lambda i: [round(base + 0.2 * wig * d.float(-1, 1, 2), 5),
                              round(level + 0.03 * wig * d.float(-1, 1, 2), 5)]
        else:
            bp, bq = d.float(-0.6, 0.5, 2), d.float(-0.3, 0.3, 2)
            vals = lambda i: [round(bp + 0.2 * wig * d.float(-1, 1, 2), 5),
                              round(bq + 0.1 * wig * d.float(-1, 1, 2), 5)]
        net["boundary"][ids[v]] = gen_series(d, start, end, vals)
        if t == "StochasticPQnode":
            node.update(
                stability_parameter=d.weighted([(2, 1.0), (1, 0.5), (1, 1.8)]),
                cut_off_factor=d.weighted([(3, 0.3), (1, 0.05), (1, 1.0)]),
                sigma_P=d.weighted([(3, 0.05), (1, 0.0), (1, 0.4)]),
                theta_P=d.weighted([(3, 0.02), (1, 3.0), (1, 0.0), (1, 0.5)]),
                sigma_Q=d.weighted([(3, 0.03), (1, 0.0), (1, 0.3)]),
                theta_Q=d.weighted([(3, 0.02), (1, 2.0), (1, 0.0), (1, 0.4)]),
                number_of_stochastic_steps=d.weighted([(2, 10), (1, 1), (1, 100)]))
        net["nodes"].append(node)
        net["initial"][ids[v]] = [[0, [level, turn]]]
    return {"nodes": ids, "types": types, "plants": [ids[v] for v in plantset]}


def gen_coupling(d, net, gas, power, ids="gp"):
    """Joins every plant of the power network with a gas node."""
    eids = fresh_ids(d, ids, len(power["plants"]))
    for plant, eid in zip(power["plants"], eids):
        cand = gas["pb"] if gas["pb"] and d.bool(0.5) else gas["nodes"]
        a = d.choice(cand)
        g = d.weighted([(2, 0.05), (2, 0.01), (1, 0.005), (1, 0.2)])
        r = d.weighted([(2, 2.0), (1, 1.0), (1, 3.5), (1, 0.7)])
        net["edges"].append({"id": eid, "type": "Gaspowerconnection", "from": a,
                             "to": plant, "gas2power_q_coeff": g,
                             "power2gas_q_coeff": round(g * r, 6)})
        net["initial"][eid] = [[0, [gas["pressure"][a],
                                    d.weighted([(2, 0.0), (1, 10.0), (1, -10.0)])]]]


def empty_net():
    return {"nodes": [], "edges": [], "boundary": {}, "initial": {},
            "control": {}, "seeds": {}, "sim": {}, "control_settings": None,
            "constraint_settings": None, "defaults": {}, "optimize": None}


def gen_settings(d, net, start, end, dt):
    net["sim"] = {
        "start_time": start, "end_time": end, "desired_delta_t": dt,
        "use_simplified_newton": d.bool(0.5),
        "maximal_number_of_newton_iterations": 60,
        "tolerance": d.weighted([(3, 1e-7), (1, 1e-8), (1, 1e-6)]),
        "retries": d.weighted([(3, 0), (1, 2)]),
    }


def gen_control_settings(d, net, start, end, dt):
    k = d.raw(3)
    if k == 1:
        net["control_settings"] = {"desired_delta_t": dt * d.weighted(
            [(1, 1.0), (1, 2.5), (1, 0.4), (1, 100.0)])}
    elif k == 2:
        net["control_settings"] = {"number_of_steps": d.int(2, 9)}


def control_grid(net):
    s = net["sim"]
    cs = net["control_settings"]
    if cs is None:
        return grid(s["start_time"], s["end_time"], s["desired_delta_t"])
    if "desired_delta_t" in cs:
        return grid(s["start_time"], s["end_time"], cs["desired_delta_t"])
    n = cs["number_of_steps"] - 1
    return [s["start_time"] + (s["end_time"] - s["start_time"]) * i / n
            for i in range(n)] + [s["end_time"]]


def state_grid(net):
    s = net["sim"]
    return grid(s["start_time"], s["end_time"], s["desired_delta_t"])


def interp(points, t):
    """Linear interpolation in [[t, values], ...] (sorted)."""
    if t <= points[0][0]:
        return list(points[0][1])
    for (t0, v0), (t1, v1) in zip(points, points[1:]):
        if t <= t1:
            l = (t - t0) / (t1 - t0)
            return [(1 - l) * a + l * b for a, b in zip(v0, v1)]
    return list(points[-1][1])


# ----------------------------------------------------------------- writing
def split(items, drop):
    res = {}
    for it in items:
        o = {k: v for k, v in it.items() if k != "type" and k not in drop}
        res.setdefault(it["type"], []).append(o)
    return res


def series(pts, name):
    return [{name: t, "values": list(v)} for t, v in pts]


def to_files(net, order=None):
    """{file name: json}.  `order` may permute the lists (for C07)."""
    kind = {n["id"]: ("nodes", n["type"]) for n in net["nodes"]}
    kind.update({e["id"]: ("connections", e["type"]) for e in net["edges"]})
    nodes = split(net["nodes"], ())
    edges = split(net["edges"], ())

    def by_comp(table, name, extra=None):
        res = {}
        for cid, pts in table.items():
            cls, typ = kind[cid]
            o = {"id": cid, "data": series(pts, name)}
            if extra and cid in extra:
                o["seed"] = extra[cid]
            res.setdefault(cls, {}).setdefault(typ, []).append(o)
        return res

    pd = {"simulation_settings": dict(net["sim"]),
          "problem_data": {"defaults": net["defaults"],
                           "topology_json": "topology.json",
                           "boundary_json": "boundary.json"}}
    for k in ("control_settings", "constraint_settings", "optimize"):
        if net.get(k) is not None:
            pd[k] = net[k]
    files = {
        "problem_data.json": pd,
        "topology.json": {"nodes": nodes, "connections": edges},
        "boundary.json": by_comp(net["boundary"], "time", net.get("seeds")),
        "initial.json": by_comp(net["initial"], "x"),
        "control.json": by_comp(net["control"], "time"),
    }
    for k in ("lower_bounds", "upper_bounds", "constraint_lower_bounds",
              "constraint_upper_bounds"):
        if net.get(k) is not None:
            files[k + ".json"] = by_comp(net[k], "time")
    return files


def write_files(files, d):
    p = os.path.join(d, "problem")
    os.makedirs(p, exist_ok=True)
    for name, content in files.items():
        with open(os.path.join(p, name), "w") as f:
            if isinstance(content, str):
                f.write(content)
            else:
                json.dump(content, f)


def read_outputs(d):
    """[(directory, states or None, controls or None)]"""
    o = os.path.join(d, "output")
    res = []
    if os.path.isdir(o):
        for n in sorted(os.listdir(o)):
            q = os.path.join(o, n)
            vals = []
            for f in ("states.json", "controls.json"):
                try:
                    with open(os.path.join(q, f)) as fh:
                        vals.append(json.load(fh))
                except (OSError, ValueError):
                    vals.append(None)
            res.append((q, vals[0], vals[1]))
    return res
