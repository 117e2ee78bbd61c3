"""Whole problems for the optim driver: embedding of generated networks,
random states, random extra costs and constraints, synthetic problems."""
import math
import model
import netgen


def embed(net, files=None):
    f = files or netgen.to_files(net)
    return {"topology_json": f["topology.json"],
            "boundary_json": f["boundary.json"],
            "defaults": net["defaults"], "GRAZER_file_directory": "/nowhere"}


def initial_json(net, initial):
    n = dict(net)
    n["initial"] = initial
    return netgen.to_files(n)["initial.json"]


def flow(d, dia=None):
    """A flow: any sign, laminar to turbulent, the transition included."""
    k = d.weighted([(4, "usual"), (2, "log"), (2, "transition"), (1, "zero")])
    s = 1 if d.bool(0.5) else -1
    if k == "usual":
        return round(s * d.float(0.5, 300, 2), 3)
    if k == "zero":
        return 0.0
    if k == "log" or dia is None:
        return s * d.log(1e-4, 300)
    return s * d.float(1500, 4500, 2) / abs(model.reynolds(1.0, dia))


def random_state(d, net):
    """Initial values of all components, unrelated to any solution."""
    kind = {e["id"]: e for e in net["edges"]}
    res = {}
    for cid, pts in net["initial"].items():
        e = kind.get(cid)
        if e is None:   # power node
            res[cid] = [[0, [d.float(0.8, 1.2, 3), d.float(-1.5, 1.5, 3)]]]
            continue
        dia = netgen.si(e["diameter"]) if e["type"] == "Pipe" else None
        if e["type"] == "Gaspowerconnection":
            q = d.weighted([(3, d.float(-200, 200, 2)), (1, d.float(-80, 80, 2)),
                            (1, 0.0), (1, 60.0), (1, -60.0), (1, d.log(1e-3, 60))])
            res[cid] = [[pts[0][0], [d.float(5, 90, 2), q]]]
            continue
        q = flow(d, dia)
        out = []
        for x, _ in pts:
            if d.bool(0.3):
                q = flow(d, dia)
            out.append([x, [d.float(5, 90, 2), q]])
        res[cid] = out
    return res


# ---------------------------------------------------- functions given as terms
def cost_terms(d, n, c, scale_n, scale_u, m_hi=6, coef=1.0):
    """Terms in new state (n entries of size scale_n) and control."""
    ts = []
    for _ in range(d.int(1, m_hi)):
        k = d.weighted([(3, "n"), (3, "nn"), (2, "uu"), (2, "nu"), (1, "u"),
                        (1, "nt"), (1, "pos"), (1, "t"), (1, "su")])
        i, j = d.raw(max(0, n - 1)), d.raw(max(0, n - 1))
        if k in ("uu", "u", "su"):
            i, j = d.raw(c - 1), d.raw(c - 1)
        elif k == "nu":
            j = d.raw(c - 1)
        elif k == "pos":
            j = d.int(-2, 2)
        f = {"n": scale_n, "nt": scale_n, "nn": scale_n ** 2, "pos": scale_n ** 2,
             "nu": scale_n * scale_u, "uu": scale_u ** 2, "u": scale_u,
             "su": 1.0, "t": 1.0}[k]
        ts.append([coef * d.float(-2, 2, 2) / f, k, i, j])
    return ts


def term_value(ts, t, n, u):
    s = 0.0
    for c, k, i, j in ts:
        s += c * {"n": lambda: n[i], "nt": lambda: n[i] * math.cos(t),
                  "nn": lambda: n[i] * n[j], "uu": lambda: u[i] * u[j],
                  "u": lambda: u[i], "nu": lambda: n[i] * u[j],
                  "pos": lambda: max(0.0, n[i] - j) ** 2,
                  "t": lambda: math.sin(t + i),
                  "su": lambda: math.sin(u[i])}[k]()
    return s


def synthetic(d, n_hi=5, c_hi=3):
    n, c = d.int(1, n_hi), d.int(1, c_hi)
    eqs = []
    for i in range(n):
        ts = [[-d.float(0, 1, 2), "n", i, 0]]
        for _ in range(d.int(1, 5)):
            k = d.weighted([(3, "u"), (2, "n"), (2, "sn"), (1, "l"), (1, "sl"),
                            (1, "su"), (1, "nu"), (1, "lu"), (1, "nl"), (1, "t"),
                            (1, "nn"), (1, "uu")])
            a, b = d.raw(n - 1), d.raw(n - 1)
            if k in ("u", "su", "uu"):
                a, b = d.raw(c - 1), d.raw(c - 1)
            elif k in ("nu", "lu"):
                b = d.raw(c - 1)
            f = {"nn": 0.05, "nl": 0.05, "nu": 0.2, "lu": 0.2, "uu": 0.3}.get(k, 1.0)
            ts.append([f * d.float(-1, 1, 2), k, a, b])
        eqs.append(ts)
    return {"equations": eqs, "controls": c,
            "initial": [d.float(-1, 1, 2) for _ in range(n)]}


def extras(d, problem, n, c, at_least=0):
    """Adds to the embedded problem up to three components with costs,
    penalties and constraints of their own; returns them."""
    es = []
    for i in range(d.int(at_least, 3)):
        es.append({
            "id": d.choice(["a", "m", "z", "~"]) + "_extra%d" % i,
            "cost_weight": d.weighted([(2, 1.0), (2, d.float(0, 3, 2)), (1, 0.0)]),
            "penalty_weight": d.weighted([(2, 1.0), (2, d.float(0, 3, 2)), (1, 0.0)]),
            "cost": cost_terms(d, n, c, 30.0, 5.0, 4) if d.bool(0.7) else [],
            "penalty": cost_terms(d, n, c, 30.0, 5.0, 4) if d.bool(0.7) else [],
            "constraints": [cost_terms(d, n, c, 30.0, 5.0, 4)
                            for _ in range(d.weighted([(3, 0), (2, 1), (1, 2)]))]})
    if es:
        problem["topology_json"]["nodes"]["Extra"] = [dict(e) for e in es]
    return es


# ------------------------------------------------------- optimisation problems
def time_grids(d, st):
    """Control and constraint times for the state times."""
    a, b = st[0], st[-1]
    k = d.weighted([(3, "state"), (3, "coarse"), (2, "odd"), (2, "fine"),
                    (1, "two"), (1, "near")])
    if k == "state":
        ct = list(st)
    elif k == "coarse":
        ct = [a] + d.sample(st[1:-1], d.int(0, max(0, len(st) - 2))) + [b]
    elif k == "odd":
        ct = [a] + [a + (b - a) * x for x in
                    sorted({d.float(0.02, 0.98, 2) for _ in range(d.int(1, 5))})] + [b]
    elif k == "fine":
        ct = sorted(set(st) | {0.5 * (x + y) for x, y in zip(st, st[1:])})
    elif k == "near":
        # next to the state times, but not on them
        ct = [a, b]
        for i, t in enumerate(st[1:-1], 1):
            h = min(st[i + 1] - t, t - st[i - 1])
            ct.append(t + h * d.weighted([(1, 1e-3), (1, -1e-3), (1, 1e-5),
                                          (1, -1e-5), (1, 0.02), (1, -0.02)]))
    else:
        ct = [a, b]
    ct = sorted(set(ct))
    g = d.weighted([(3, "all"), (3, "some"), (1, "last"), (1, "one")])
    if g == "all":
        gt = st[1:]
    elif g == "some":
        gt = d.sample(st[1:], d.int(1, len(st) - 1))
    elif g == "last":
        gt = [b]
    else:
        gt = [d.choice(st[1:])]
    return ct, sorted(gt)


def state_times(d, a, dt, hi=6):
    n = d.int(1, hi)
    if d.bool(0.6):
        return [a + dt * i for i in range(n + 1)]
    st = [a]
    for _ in range(n):
        st.append(st[-1] + dt * d.weighted([(2, 1.0), (1, 0.5), (1, 0.25), (1, 2.0)]))
    return st


def session(d, net_share=0.4, max_clusters=3, hi=6):
    """A random optimisation problem for the optim driver; the entries 'x_size'
    (an upper bound of the number of control values) and 'kind' are ours."""
    solver = {"tolerance": 1e-9, "maximal_number_of_newton_iterations": 60,
              "retries": d.int(0, 2), "use_simplified_newton": d.bool(0.5)}
    q = {"solver": solver, "initial_control": 1e6}
    if d.bool(net_share):
        import sim
        for _ in range(20):
            net = sim.gen_net(d, gas=True, power=False, coupling=d.bool(0.25),
                              max_clusters=max_clusters, max_steps=hi)
            if net["control"]:
                break
        else:
            net = None
    else:
        net = None
    if net:
        solver["tolerance"] = 1e-7
        c = len(net["control"])
        s = net["sim"]
        t0, t1 = s["start_time"], s["end_time"]
        dt = min(s["desired_delta_t"], t1 - t0)
        st = sorted({min(t, t1) for t in state_times(d, t0, dt, hi)})
        nsink = 0
        for v in net["nodes"]:
            if v["type"] == "Sink" and d.bool(0.7) and any(
                    v["id"] in (e["from"], e["to"]) for e in net["edges"]):
                v["type"] = "ConstraintSink"
                nsink += 1
        n = 2 * len(net["edges"])
        f = netgen.to_files(net)
        q.update(net=embed(net, f), initial=f["initial.json"],
                 control_json=f["control.json"])
        q["extras"] = extras(d, q["net"], n, c, 0 if nsink else 1)
        if d.bool(0.2):
            q["constraints"] = [cost_terms(d, n, c, 30.0, 5.0, 4)]
        q["kind"] = "net"
        q["machines"] = {e["id"]: e["type"] for e in net["edges"]
                         if e["id"] in net["control"]}
        q["series"] = net["control"]
        q["sinks"] = nsink
        q["parts"] = [len(net["nodes"]), len(net["edges"])]
    else:
        p = synthetic(d)
        c, n = p["controls"], len(p["equations"])
        q.update(p)
        dt = d.weighted([(3, 0.25), (1, 0.1), (1, 0.5)])
        st = state_times(d, d.weighted([(3, 0.0), (1, -2.0), (1, 100.0)]), dt, hi)
        q["cost"] = cost_terms(d, n, c, 1.0, 1.0)
        if d.bool(0.7):
            q["penalty"] = cost_terms(d, n, c, 1.0, 1.0)
        q["constraints"] = [cost_terms(d, n, c, 1.0, 1.0, 4)
                            for _ in range(d.int(0, 3))]
        q["kind"] = "synthetic"
    ct, gt = time_grids(d, st)
    q.update(state_times=st, control_times=ct, constraint_times=gt)
    q["x_size"] = c * len(ct)
    q["c"] = c
    return q


def trajectory(d, q, wide=1.0):
    return [round(wide * d.float(-1, 1, 2), 4) for _ in range(q["x_size"])]


# --------------------------------------------- optimisation through the program
def gen_opt(d, max_clusters=3, max_steps=6):
    """A gas problem with controls for `grazer run` with optimize.  The control
    series of the network are a witness; the bounds of the constraint sinks are
    given as margins around the pressures that belong to the witness."""
    import sim
    for _ in range(30):
        net = sim.gen_net(d, gas=True, power=False, max_clusters=max_clusters,
                          max_steps=max_steps,
                          regime=d.weighted([(4, "normal"), (1, "small"),
                                             (1, "reverse")]))
        if net["control"]:
            break
    else:
        return None
    for v in net["nodes"]:
        if v["type"] == "Sink" and d.bool(0.7) and any(
                v["id"] in (e["from"], e["to"]) for e in net["edges"]):
            v["type"] = "ConstraintSink"
    s = net["sim"]
    st, en = s["start_time"], s["end_time"]
    net["optimize"] = True
    net["sim"]["tolerance"] = d.choice([1e-8, 1e-7])
    n = d.weighted([(6, None), (3, 1), (1, 2), (1, 3)])
    net["constraint_settings"] = None if n is None else \
        {"evaluate_constraints_every_n": n}
    net["witness"] = net["control"]
    start = {}
    lower, upper = {}, {}
    near = d.weighted([(2, "witness"), (5, "off"), (1, "outside"), (1, "zero")])
    for cid, w in net["witness"].items():
        top = max(v[0] for _, v in w)
        bot = min(v[0] for _, v in w)
        down, up = d.float(0, 4, 1), d.float(0.1, 6, 1)
        moving = d.bool(0.3)
        lower[cid] = netgen.gen_series(d, st, en, lambda i: [
            round(bot - down - (d.float(0, 2, 1) if moving else 0), 4)])
        upper[cid] = netgen.gen_series(d, st, en, lambda i: [
            round(top + up + (d.float(0, 2, 1) if moving else 0), 4)])
        if d.bool(0.1):             # prescribed
            lower[cid] = [[t, [bot]] for t in (st, en)]
            upper[cid] = [[t, [top]] for t in (st, en)]
        k = d.float(-1, 1, 2) * 3
        start[cid] = {"witness": w, "off": [[t, [round(v[0] + k, 4)]] for t, v in w],
                      "outside": [[t, [v[0] + 20.0]] for t, v in w],
                      "zero": [[st, [0.0]], [en, [0.0]]]}[near]
    net["control"] = start
    net["lower_bounds"], net["upper_bounds"] = lower, upper
    margins = {}
    for v in net["nodes"]:
        if v["type"] == "ConstraintSink":
            margins[v["id"]] = [d.weighted([(3, 0.05), (3, 0.5), (1, 3.0), (2, 1e6)]),
                                d.weighted([(1, 0.05), (2, 0.5), (2, 5.0), (3, 1e6)]),
                                d.bool(0.5)]
    net["margins"] = margins
    net["start_kind"] = near
    return net


def constrain(net, pressure, times):
    """Sets the bounds of the constraint sinks: pressure[id] is a list of values
    at the times (without the start).  None: bounds nothing can violate."""
    s = net["sim"]
    lo, hi = {}, {}
    for i, (a, b, moving) in net["margins"].items():
        if pressure is None:
            lo[i] = [[s["start_time"], [0.0]], [s["end_time"], [0.0]]]
            hi[i] = [[s["start_time"], [1e4]], [s["end_time"], [1e4]]]
            continue
        p = pressure[i]
        if moving:
            lo[i] = [[t, [x - a]] for t, x in zip(times, p)]
            hi[i] = [[t, [x + b]] for t, x in zip(times, p)]
        else:
            lo[i] = [[s["start_time"], [min(p) - a]], [s["end_time"], [min(p) - a]]]
            hi[i] = [[s["start_time"], [max(p) + b]], [s["end_time"], [max(p) + b]]]
    net["constraint_lower_bounds"], net["constraint_upper_bounds"] = lo, hi


def constraint_times(st, n):
    """Times (of the state times) at which constraints must hold for every
    reading of evaluate_constraints_every_n."""
    if not n or n <= 1:
        return st[1:]
    idx = list(range(1, len(st), n))
    return [st[i] for i in idx[:-1]]


def machine_cost(net, control, st):
    """The objective: control**2 of all compressors, control[id] a series on the
    control times."""
    kind = {e["id"]: e["type"] for e in net["edges"]}
    c = 0.0
    for i in range(1, len(st)):
        w = 0.5 * ((st[i + 1] if i + 1 < len(st) else st[i]) - st[i - 1])
        for cid, pts in control.items():
            if kind[cid] == "Compressorstation":
                c += w * netgen.interp(pts, st[i])[0] ** 2
    return c
