import copy
import json
import math
import os
import subprocess
import common  # noqa: F401
import netgen
import sim
import vlib
from vlib import Check, Res, main

GAS = ("Pipe", "Shortpipe", "Gaspowerconnection", "Compressorstation",
       "Controlvalve")
POWER = ("PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant")
HELPERS = ("extract_new_initial_condition", "include_seed_in_boundaryvalues",
           "remove_seed_from_boundaryvalues", "normalize_jsons", "change_inflow",
           "increase_pressure", "generate_printing_csv",
           "generate_control_printing_csv", "sum_outflow", "move_to_category",
           "insert_positions", "construct_gaspowerconnection", "stringify_values",
           "get_mean_sigma", "compute_reference_discrepance", "boundaryprettyfy")


def load(p):
    with open(p) as f:
        return json.load(f)


def dump(p, x, d=None):
    with open(p, "w") as f:
        json.dump(x, f, indent=d)


def same(a, b):
    """Equal as json values; numbers as numbers, booleans are none."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return a == b


def diff(a, b, at=""):
    """The first place where they differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return "%s/%s is only in one of them" % (at, k)
            if not same(a[k], b[k]):
                return diff(a[k], b[k], at + "/" + str(k))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s has %d and %d entries" % (at, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, "%s/%d" % (at, i))
    return "%s: %r expected, found %r" % (at, a, b)


def components(j):
    """(class, type, index, component)"""
    for c in ("nodes", "connections"):
        for t, l in (j.get(c) or {}).items():
            for i, o in enumerate(l):
                yield c, t, i, o


class C28(Check):
    id = "C28"
    cli = True
    helpers = HELPERS
    rule = ("a helper ran on data of at least two components (for a restart: on a "
            "result with a step before and one after the extracted time) and its "
            "output was compared with the complete expected content")
    assumptions = [
        "data are compared as json values, so layout, the order of keys and the way "
        "a number is written are free",
        "a restarted run may differ from the longer one by 1e-6 relative; if it does "
        "by more, both runs are repeated with a Newton tolerance of 1e-10 times the "
        "original one and only a difference that persists is a violation",
        "a restart is judged for problems without stochastic loads (their noise is "
        "not continued) and with constant controls (control times are laid out over "
        "the whole interval)",
        "change_inflow is documented for constant inflow given by two points per "
        "source, other files must be left alone with an error; sum_outflow adds the "
        "flow at the second point of every short pipe, as its documentation's use "
        "implies",
        "boundaryprettyfy is given the conditions of one power node in the order in "
        "which its types are named (P before Q or V, V before phi)",
        "get_mean_sigma and compute_reference_discrepance are run on the directory "
        "layout they read; get_quantiles says it is broken and is not run, nor are "
        "the drawing helpers, whose output is a picture"]
    quick_cases = 6000
    thorough_cases = 120000

    def gen(self, d):
        what = d.weighted([
            (6, "restart"), (2, "extract"), (2, "seeds"), (2, "csv"),
            (2, "control csv"), (2, "inflow"), (2, "pressure"), (1, "normalize"),
            (2, "move"), (2, "positions"), (1, "construct"), (1, "stringify"),
            (1, "outflow"), (2, "statistics"), (2, "convert")])
        return getattr(self, "gen_" + what.replace(" ", "_"))(d)

    # ---------------------------------------------------------------- tools
    def tool(self, ctx, res, name, args, cwd, stdin=None, ok=True):
        r = subprocess.run([ctx.bins[name]] + args, cwd=cwd, text=True,
                           input=stdin or "", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, errors="replace")
        if ok and r.returncode != 0:
            res.bad(name + "/failed", "%s %s ends with status %d: %s" % (
                name, args, r.returncode, (r.stdout + r.stderr)[-400:]))
        if ok is False and r.returncode == 0:
            res.bad(name + "/accepted", "%s %s reports success: %s" % (
                name, args, (r.stdout + r.stderr)[-400:]))
        return r

    def expect(self, res, key, want, got):
        if not same(want, got):
            res.bad(key, diff(want, got))

    # -------------------------------------------------------------- restart
    def constant_controls(self, d, net):
        for v in net["control"].values():
            for p in v:
                p[1] = list(v[0][1])

    def gen_restart(self, d):
        net = sim.mixed(d, max_clusters=3, max_steps=6)
        self.constant_controls(d, net)
        n = len(netgen.state_grid(net)) - 1
        return {"what": "restart", "net": net, "k": d.int(0, n),
                "ask": d.weighted([(3, "exact"), (1, "after"), (1, "late"),
                                   (1, "early")])}

    def gen_extract(self, d):
        """States as the program writes them, any numbers."""
        q = self.gen_states(d, 1)
        q["what"] = "extract"
        q["at"] = d.weighted([(4, "exact"), (3, "between"), (1, "early"),
                              (1, "late")])
        q["k"] = d.raw(len(q["times"]) - 1)
        return q

    def gen_states(self, d, runs):
        """Synthetic results of one topology."""
        times = [d.float(-100, 100, 2)]
        for _ in range(d.int(0, 5)):
            times.append(times[-1] + d.weighted([(2, d.log(1e-3, 1e4)), (1, 600.0)]))
        comps = []
        used = set()
        for t in GAS + POWER:
            ids = set()
            for _ in range(d.weighted([(3, 0), (2, 1), (1, 2), (1, 3)])):
                i = d.weighted([(2, "n%d"), (1, "N%d"), (1, "%d")]) % d.int(0, 40)
                if i not in used:
                    used.add(i)
                    ids.add(i)
            for i in sorted(ids):
                xs = None
                if t in GAS:
                    xs = [0.0]
                    for _ in range(d.int(1, 4) if t == "Pipe" else 1):
                        xs.append(xs[-1] + d.log(0.1, 1e5))
                comps.append([t, i, xs])
        if not comps:
            comps = [["PQnode", "n1", None]]
        many = {}

        def num():
            return d.weighted([(3, d.float(-100, 100)), (1, d.float(-5, 5, 3)),
                               (1, 0.0), (1, d.log(1e-12, 1e12)), (1, d.int(-9, 9))])
        out = []
        for _ in range(runs):
            j = {}
            for t, i, xs in comps:
                c = "nodes" if t in POWER else "connections"
                data = []
                for tm in times:
                    p = {"time": tm}
                    if xs is None:
                        p.update({k: num() for k in ("P", "Q", "V", "phi")})
                    else:
                        for k in ("flow", "pressure"):
                            p[k] = [{"x": x, "value": num()} for x in xs]
                    data.append(p)
                j.setdefault(c, {}).setdefault(t, []).append({"id": i, "data": data})
            out.append(j)
        return {"times": times, "comps": comps, "states": out, **many}

    def expected_initial(self, states, t):
        want = {}
        for c, typ, _, o in components(states):
            steps = o["data"]
            s = next((s for s in steps if s["time"] >= t), steps[-1])
            if typ in POWER:
                pts = [{"x": 0.0, "values": [s["V"], s["phi"]]}]
            else:
                pts = [{"x": f["x"], "values": [p["value"], f["value"]]}
                       for f, p in zip(s["flow"], s["pressure"])]
            want.setdefault(c, {}).setdefault(typ, []).append(
                {"id": o["id"], "data": pts})
        return want

    def run_extract(self, q, ctx, res, w):
        states, times, k = q["states"][0], q["times"], q["k"]
        t = times[k]
        if q["at"] == "between":
            t = (times[k] + times[min(k + 1, len(times) - 1)]) / 2
        elif q["at"] == "early":
            t = times[0] - 1
        elif q["at"] == "late":
            t = times[-1] + 1
        dump(w + "/states.json", states)
        r = self.tool(ctx, res, "extract_new_initial_condition",
                      ["states.json", "new.json", repr(t)], w)
        if r.returncode == 0:
            self.expect(res, "extract", self.expected_initial(states, t),
                        load(w + "/new.json"))
        self.expect(res, "extract/input", states, load(w + "/states.json"))
        res.nontrivial = len(q["comps"]) > 1 and len(times) > 1

    def run_restart(self, q, ctx, res, w):
        net = q["net"]
        worst = None
        for attempt in range(2):
            if attempt:
                net = copy.deepcopy(net)
                net["sim"]["tolerance"] = max(1e-12, net["sim"]["tolerance"] * 1e-4)
                net["sim"]["maximal_number_of_newton_iterations"] = 200
                res.label("compared again")
            worst = self.restart_once(q, net, ctx, res, w + "/%d" % attempt)
            if worst is None or worst[0] <= 1e-6:
                return
        res.bad("restart", worst[1])

    def restart_once(self, q, net, ctx, res, w):
        os.makedirs(w)
        files = netgen.to_files(net)
        a = sim.Sim(ctx, net, files=files)
        if not a.ok or a.states is None:
            res.skip = "simulation failed"
            return None
        grid = sorted({p["time"] for _, _, _, o in components(a.states)
                       for p in o["data"]})
        if not grid:
            res.skip = "no states"
            return None
        k = min(q["k"], len(grid) - 1)
        t = grid[k]
        if q["ask"] == "after" and k:
            t = grid[k] - (grid[k] - grid[k - 1]) * 0.3
        elif q["ask"] == "late":
            k = len(grid) - 1
            t = grid[k] + 1e3
        elif q["ask"] == "early":
            k = 0
            t = grid[0] - 1e3
        dump(w + "/states.json", a.states)
        r = self.tool(ctx, res, "extract_new_initial_condition",
                      ["states.json", "new.json", repr(t)], w)
        if r.returncode:
            return None
        initial = load(w + "/new.json")
        self.expect(res, "extract", self.expected_initial(a.states, t), initial)
        if res.fail:
            return None
        res.label("restart at " + ("the end" if k == len(grid) - 1 else
                                   "the start" if k == 0 else "the middle"))
        if k == len(grid) - 1:
            return None
        files2 = copy.deepcopy(files)
        s = files2["problem_data.json"]["simulation_settings"]
        s["start_time"] = grid[k]
        s["desired_delta_t"] = (s["end_time"] - grid[k]) / (
            len(grid) - 1 - k) * (1 + 1e-9)
        cs = files2["problem_data.json"].get("control_settings")
        if cs:
            # constant controls: any layout will do
            files2["problem_data.json"].pop("control_settings")
        files2["initial.json"] = initial
        b = sim.Sim(ctx, net, files=files2)
        if not b.ok:
            if "data read" not in b.r.out:
                res.bad("restart/refused", "the extracted state is refused: "
                        + b.message())
            else:
                res.skip = "restarted simulation failed"
            return None
        res.nontrivial = k > 0
        return self.compare(a.states, b.states, grid[k:])

    def compare(self, a, b, grid):
        """The tail of a against b: (worst relative difference, message)."""
        other = {o["id"]: o["data"] for _, _, _, o in components(b)}
        worst = (0.0, "")
        span = grid[-1] - grid[0]
        for _, typ, _, o in components(a):
            tail = [p for p in o["data"] if p["time"] >= grid[0]]
            new = other.get(o["id"])
            if new is None or len(new) != len(tail):
                return (math.inf, "%s has %s steps in the restarted run, %d in the "
                        "longer one" % (o["id"], new and len(new), len(tail)))
            for p, r in zip(tail, new):
                if abs(p["time"] - r["time"]) > 1e-9 * (span + abs(p["time"])):
                    return (math.inf, "%s: step at %r instead of %r" % (
                        o["id"], r["time"], p["time"]))
                for key in p:
                    if key == "time":
                        continue
                    u = p[key] if isinstance(p[key], list) else [{"x": 0, "value": p[key]}]
                    v = r[key] if isinstance(r[key], list) else [{"x": 0, "value": r[key]}]
                    if [x["x"] for x in u] != [x["x"] for x in v]:
                        return (math.inf, "%s: other positions" % o["id"])
                    scale = 1e-3 + max([abs(x["value"]) for x in u + v] + [
                        1.0 if typ in POWER else 10.0])
                    for x, y in zip(u, v):
                        e = abs(x["value"] - y["value"]) / scale
                        if not e <= worst[0]:
                            worst = (e, "%s %s at %r: %r in the longer run, %r after "
                                     "the restart" % (o["id"], key, p["time"],
                                                      x["value"], y["value"]))
        return worst

    # ---------------------------------------------------------------- seeds
    def gen_seeds(self, d):
        net = sim.gen_net(d, gas=d.bool(0.2), stochastic=True, max_steps=4)
        for n in net["nodes"]:
            if n["type"] == "StochasticPQnode":
                for _, v in net["boundary"][n["id"]]:
                    for i in (0, 1):
                        if abs(v[i]) < 1e-3:
                            v[i] = 0.01
                if d.bool(0.3):
                    net["seeds"][n["id"]] = [d.raw(2 ** 31) for _ in range(8)]
        return {"what": "seeds", "net": net, "extra": d.bool(0.3),
                "reseed": d.bool(0.5), "odd": d.weighted([(4, "none"), (1, None), (1, "0"), (1, []), (1, {}),
                                   (1, 0)])}

    def run_seeds(self, q, ctx, res, w):
        net = q["net"]
        files = netgen.to_files(net)
        if q["extra"]:
            files["boundary.json"]["$schema"] = "./x.json"
            files["boundary.json"]["comment"] = [1, {"seed": 3}]
        netgen.write_files(files, w)
        bfile = w + "/problem/boundary.json"
        original = load(bfile)
        r = vlib.run_cli(ctx.bins["grazer"], ["run", w])
        o = netgen.read_outputs(w)
        if r.rc != 0 or not o:
            res.skip = "simulation failed"
            return
        first = o[-1][1]
        results = o[-1][0] + "/states.json"
        if q.get("reseed"):     # other seeds by now; those of the results win
            j = load(bfile)
            for _, t, _, y in components(j):
                if t == "StochasticPQnode" and "seed" in y:
                    y["seed"] = list(range(8))
            dump(bfile, j)
        self.tool(ctx, res, "include_seed_in_boundaryvalues", [w, results], w)
        want = copy.deepcopy(original)
        n = 0
        for c, t, _, x in components(first):
            if t == "StochasticPQnode":
                seed = x.get("seed")
                if not (isinstance(seed, list) and len(seed) == 8):
                    res.bad("seeds/missing", "no seed in the results of %s" % x["id"])
                    return
                n += 1
                for y in want[c][t]:
                    if y["id"] == x["id"]:
                        y["seed"] = seed
        self.expect(res, "include", want, load(bfile))
        if res.fail:
            return
        r = vlib.run_cli(ctx.bins["grazer"], ["run", w])
        o2 = netgen.read_outputs(w)
        if r.rc != 0 or len(o2) != 2:
            res.bad("seeds/rerun", "the run with the seeds of a successful run fails: "
                    + (r.out + r.err)[-300:])
            return
        new = [x for x in o2 if x[0] != o[-1][0]][0][1]
        self.expect(res, "reproduce", first, new)
        if q.get("odd", "none") != "none":    # a seed of whatever form goes
            j = load(bfile)
            for i, (_, _, _, y) in enumerate(components(j)):
                if i % 2 == 0:
                    y["seed"] = q["odd"]
            dump(bfile, j)
        self.tool(ctx, res, "remove_seed_from_boundaryvalues", [w], w)
        want = copy.deepcopy(original)
        for _, _, _, y in components(want):
            y.pop("seed", None)
        self.expect(res, "remove", want, load(bfile))
        res.label("%d stochastic nodes" % min(n, 3))
        res.nontrivial = n > 0 and len(net["nodes"]) > 1

    # ------------------------------------------------------------------ csv
    def gen_csv(self, d):
        q = self.gen_states(d, 1)
        q["what"] = "csv"
        q["pick"] = d.raw(len(q["comps"]))
        if q["pick"] < len(q["comps"]) and d.bool(0.1):
            # an id that is no name of a file here
            c = q["comps"][q["pick"]]
            q["odd"] = d.choice(["no/%s", "../%s", "../../%s", "/nowhere/%s"]) % c[1]
            for cl, t, _, o in components(q["states"][0]):
                if o["id"] == c[1]:
                    o["id"] = q["odd"]
                    q["states"][0][cl][t].sort(key=lambda x: x["id"])
        return q

    def gen_control_csv(self, d):
        times = sorted({d.float(-100, 100, 2) for _ in range(d.int(1, 6))})
        ids = sorted({d.weighted([(2, "n%d"), (1, "N%d"), (1, "%d")]) % d.int(0, 30)
                      for _ in range(d.int(1, 5))})
        j = {}
        for i in ids:
            t = d.choice(["Controlvalve", "Compressorstation"])
            m = d.weighted([(4, 1), (1, 2), (1, 3)])
            j.setdefault("connections", {}).setdefault(t, []).append(
                {"id": i, "data": [{"time": t2, "values": [
                    d.float(-50, 50) for _ in range(m)]} for t2 in times]})
        return {"what": "control_csv", "controls": j, "ids": ids,
                "pick": d.raw(len(ids))}

    def read_csv(self, p):
        with open(p) as f:
            rows = [[x.strip() for x in l.split(",")] for l in f.read().splitlines()]
        return rows

    def table(self, res, key, path, head, rows):
        """The printed table against the expected one."""
        if not os.path.exists(path):
            res.bad(key, "%s was not written" % os.path.basename(path))
            return
        got = self.read_csv(path)
        try:
            h = [x if isinstance(x, str) else float(y)
                 for x, y in zip(head, got[0])] if got else []
            v = [[float(x) for x in r] for r in got[1:]]
        except ValueError as e:
            res.bad(key, "%s: %s" % (os.path.basename(path), e))
            return
        if got and isinstance(head[0], str) and len(head) > 1 and \
                isinstance(head[1], str) and got[0] != head and \
                sorted(got[0][1:]) == sorted(head[1:]):
            # columns in another order
            perm = [head.index(x) for x in got[0]]
            head = [head[i] for i in perm]
            rows = [[r[i] for i in perm] for r in rows]
            h = got[0]
        if h != head or (got and len(got[0]) != len(head)):
            res.bad(key, "%s: columns %r, expected %r" % (
                os.path.basename(path), got[:1], head))
        elif v != rows:
            k = next((i for i, (a, b) in enumerate(zip(v, rows)) if a != b),
                     min(len(v), len(rows)))
            res.bad(key, "%s: row %d is %r, expected %r" % (
                os.path.basename(path), k, v[k:k + 1], rows[k:k + 1]))

    def run_csv(self, q, ctx, res, w):
        w += "/a/b"
        os.makedirs(w)
        states = q["states"][0]
        dump(w + "/s.json", states)
        if q["pick"] == len(q["comps"]):
            self.tool(ctx, res, "generate_printing_csv", ["s.json", "no such id"], w,
                      ok=False)
            if os.listdir(w) != ["s.json"]:
                res.bad("csv/files", "files for an unknown id: %r" % os.listdir(w))
            res.nontrivial = True
            return
        typ, cid, xs = q["comps"][q["pick"]]
        if "odd" in q:
            res.label("odd id")
            self.tool(ctx, res, "generate_printing_csv", ["s.json", q["odd"]], w,
                      ok=False)
            left = [x for _, _, fs in os.walk(os.path.dirname(os.path.dirname(w)))
                    for x in fs]
            if left != ["s.json"]:
                res.bad("csv/outside", "files for %r: %r" % (q["odd"], left))
            res.nontrivial = True
            return
        self.tool(ctx, res, "generate_printing_csv", ["s.json", cid], w)
        data = next(o["data"] for _, _, _, o in components(states) if o["id"] == cid)
        if xs is None:
            keys = ["P", "Q", "V", "phi"]
            self.table(res, "csv/power", w + "/%s.csv" % cid, ["time"] + keys,
                       [[p["time"]] + [p[k] for k in keys] for p in data])
            files = {"s.json", cid + ".csv"}
        else:
            for k in ("flow", "pressure"):
                self.table(res, "csv/gas", w + "/%s_%s.csv" % (cid, k), ["t-x"] + xs,
                           [[p["time"]] + [x["value"] for x in p[k]] for p in data])
            files = {"s.json", cid + "_flow.csv", cid + "_pressure.csv"}
        if set(os.listdir(w)) != files:
            res.bad("csv/files", "files are %r" % os.listdir(w))
        res.nontrivial = len(q["comps"]) > 1

    def run_control_csv(self, q, ctx, res, w):
        w += "/a/b"
        os.makedirs(w)
        dump(w + "/c.json", q["controls"])
        if q["pick"] == len(q["ids"]):
            self.tool(ctx, res, "generate_control_printing_csv", ["c.json", "nowhere"],
                      w, ok=False)
            if os.listdir(w) != ["c.json"]:
                res.bad("csv/files", "files for an unknown id: %r" % os.listdir(w))
            res.nontrivial = True
            return
        cid = q["ids"][q["pick"]]
        self.tool(ctx, res, "generate_control_printing_csv", ["c.json", cid], w)
        data = next(o["data"] for _, _, _, o in components(q["controls"])
                    if o["id"] == cid)
        m = len(data[0]["values"])
        self.table(res, "csv/control", w + "/%s.csv" % cid,
                   ["time"] + ["control_%d" % i for i in range(m)],
                   [[p["time"]] + p["values"] for p in data])
        if set(os.listdir(w)) != {"c.json", cid + ".csv"}:
            res.bad("csv/files", "files are %r" % os.listdir(w))
        res.nontrivial = len(q["ids"]) > 1

    # ---------------------------------------------------- files of a problem
    def problem(self, d, w=None):
        net = sim.mixed(d, max_clusters=4, max_steps=3)
        files = netgen.to_files(net)
        for f in ("boundary.json", "initial.json", "topology.json", "control.json"):
            if d.bool(0.15):
                files[f]["$schema"] = "../schemas/x.json"
            for c in ("nodes", "connections"):
                for t, l in (files[f].get(c) or {}).items():
                    if d.bool(0.3):
                        files[f][c][t] = d.shuffle(l)
                    for o in l:
                        if d.bool(0.12):
                            o[d.choice(["seed", "comment", "name", "data2", "values",
                                        "time", ""])] = d.choice(
                                [[1, 2 ** 31], None, "text", {"id": "a"}, 0, 0.0, [],
                                 {"data": [{"values": [1.5]}]}])
        return files

    def gen_inflow(self, d):
        files = self.problem(d)
        src = (files["boundary.json"].get("nodes") or {}).get("Source", [])
        if not src and d.bool(0.85):
            src = [{"id": "s%d" % i} for i in range(d.int(1, 4))]
            files["boundary.json"].setdefault("nodes", {})["Source"] = src
        broken = d.weighted([(5, None), (1, "not constant"), (1, "no number")])
        for s in src:
            v = d.weighted([(3, d.float(0.1, 100)), (1, d.float(-20, 20)),
                            (1, d.int(1, 9))])
            s["data"] = [{"time": t, "values": [v]} for t in (0.0, d.log(1, 1e5))]
        if broken and src:
            v = d.choice(src)["data"][d.raw(1)]["values"]
            v[0] = v[0] + 1.0 if broken == "not constant" else "much"
        total = d.weighted([(3, d.float(0.1, 500, 3)), (1, 0.0), (1, -40.0)])
        return {"what": "inflow", "files": files, "total": total,
                "broken": broken if src else "no source"}

    def run_inflow(self, q, ctx, res, w):
        netgen.write_files(q["files"], w)
        b = q["files"]["boundary.json"]
        src = (b.get("nodes") or {}).get("Source", [])
        old = 0.0
        if not q["broken"]:
            vals = [s["data"][0]["values"][0] for s in src]
            old = sum(vals)
            if abs(old) <= 1e-6 * sum(map(abs, vals)):
                res.skip = "the inflow cancels"
                return
        ok = not q["broken"]
        self.tool(ctx, res, "change_inflow", [repr(q["total"])], w, ok=ok)
        got = load(w + "/problem/boundary.json")
        if not ok:
            self.expect(res, "inflow/damaged", b, got)
            res.label("inflow: " + q["broken"])
            res.nontrivial = True
            return
        want = copy.deepcopy(b)
        scale = sum(map(abs, vals))
        for s, t in zip(want["nodes"]["Source"], (got.get("nodes") or {}).get(
                "Source") or []):
            for p, r in zip(s["data"], t.get("data", [])):
                x = p["values"][0] * q["total"] / old
                y = (r.get("values") or [None])[0]
                if isinstance(y, (int, float)) and \
                        abs(x - y) <= 1e-12 * scale * abs(q["total"] / old):
                    p["values"][0] = y      # equal up to rounding
                else:
                    p["values"][0] = x
        self.expect(res, "inflow", want, got)
        res.nontrivial = len(src) > 1

    def gen_pressure(self, d):
        files = self.problem(d)
        broken = d.weighted([(6, None), (1, "no number")])
        if broken:
            pts = [p for c, t, _, o in components(files["initial.json"])
                   if t in GAS for p in o["data"]]
            if pts:
                d.choice(pts)["values"][0] = "high"
            else:
                broken = None
        return {"what": "pressure", "files": files, "broken": broken,
                "add": d.weighted([(3, d.float(-20, 20)), (1, 0.0), (1, 5.0)])}

    def run_pressure(self, q, ctx, res, w):
        netgen.write_files(q["files"], w)
        self.tool(ctx, res, "increase_pressure", [w, repr(q["add"])], w,
                  ok=not q["broken"])
        want = copy.deepcopy(q["files"]["initial.json"])
        if not q["broken"]:
            for c, t, _, o in components(want):
                if t in GAS:
                    for p in o["data"]:
                        p["values"][0] += q["add"]
        else:
            res.label("pressure: no number")
        self.expect(res, "pressure", want, load(w + "/problem/initial.json"))
        for f in ("topology.json", "boundary.json", "control.json"):
            self.expect(res, "pressure/" + f, q["files"][f], load(w + "/problem/" + f))
        res.nontrivial = len(list(components(want))) > 1

    def gen_normalize(self, d):
        files = self.problem(d)
        files["topology.json"]["odd"] = d.weighted([
            (1, [1, 2.5, -0.0, 1e300, 5e-324, 123456789012345678, True, None]),
            (1, {"b": 1, "a": {"": "\u00e4\u2028\"\\/\u0001"}}), (1, [[], {}, ""])])
        return {"what": "normalize", "files": files, "indent": d.choice([None, 0, 3])}

    def run_normalize(self, q, ctx, res, w):
        names = ("topology.json", "boundary.json", "initial.json", "control.json")
        for f in names:
            dump(w + "/" + f, q["files"][f], q["indent"])
        self.tool(ctx, res, "normalize_jsons", [], w)
        for f in names:
            self.expect(res, "normalize", q["files"][f], load(w + "/" + f))
        if sorted(os.listdir(w)) != sorted(names):
            res.bad("normalize/files", "files are %r" % os.listdir(w))
        res.nontrivial = True

    def gen_convert(self, d):
        """Data in the layout with linear boundary conditions."""
        lin = {"pressure": [[1, 0]], "flow": [[0, 1]], "negflow": [[0, -1]],
               "PQ": [[1, 0, 0, 0], [0, 1, 0, 0]], "PV": [[1, 0, 0, 0], [0, 0, 1, 0]],
               "Vphi": [[0, 0, 1, 0], [0, 0, 0, 1]]}
        conds, nodes = [], []
        for i in range(d.int(1, 8)):
            t = d.choice(sorted(lin))
            times = [float(d.int(-5, 5))]
            for _ in range(d.int(0, 3)):
                times.append(times[-1] + d.choice([1, 0.5, 600]))
            own = []
            for l in lin[t]:
                data = [[x, d.weighted([(3, d.float(-100, 100)), (1, d.int(-9, 9)),
                                        (1, d.log(1e-12, 1e12))])] for x in times]
                if len(lin[t]) == 2 and len(data) > 1 and d.bool(0.2):
                    data.pop(d.raw(len(data) - 1))   # this value is missing then
                own.append([i, l, data])
            conds.append(own)
            nodes.append([i, t, d.float(-9, 9, 2)])
        # the conditions of one node stay in order, otherwise they are mixed
        mixed = []
        while conds:
            k = d.raw(len(conds) - 1) if d.bool(0.5) else 0
            mixed.append(conds[k].pop(0))
            if not conds[k]:
                conds.pop(k)
        initial = []
        for i in range(d.int(0, 4)):
            one = d.bool(0.5)
            pts = [{"x": str(d.float(0, 1000, 2)),
                    "value": [str(d.float(-100, 100, 3)) for _ in range(d.int(1, 3))]}
                   for _ in range(1 if one else d.int(1, 4))]
            initial.append({"id": "e%d" % i, "data": pts[0] if one else pts})
        return {"what": "convert", "conds": mixed, "nodes": d.shuffle(nodes),
                "initial": initial, "exists": d.weighted(
                    [(5, ""), (1, "yes"), (1, "no"), (1, "what")])}

    def run_convert(self, q, ctx, res, w):
        types = {i: t for i, t, _ in q["nodes"]}
        boundary = {"boundaryConditions": {"linearBoundaryCondition": [
            {"id": "n%d" % i, "lin": l,
             "data": [{"time": t, "value": v} for t, v in data]}
            for i, l, data in q["conds"]]}}
        power = ("PQ", "PV", "Vphi")
        topology = {"edges": {"line": [{"id": "l", "from": "n0", "to": "n1"}]},
                    "nodes": {"gasNode": [{"id": "n%d" % i, "y": y}
                                          for i, t, y in q["nodes"] if t not in power],
                              "powerGridNode": [{"id": "n%d" % i, "G": y}
                                                for i, t, y in q["nodes"]
                                                if t in power]}}
        initial = {"objectCondition": q["initial"], "other": 1}
        dump(w + "/b", boundary)
        dump(w + "/t", topology)
        dump(w + "/i", initial)
        kept = q["exists"] in ("no", "what")
        if q["exists"]:
            dump(w + "/t2", "old")
        self.tool(ctx, res, "boundaryprettyfy", ["b", "b2", "t", "t2", "i", "i2"], w,
                  stdin=q["exists"] + "\n", ok=q["exists"] != "what")
        for f, j in (("b", boundary), ("t", topology), ("i", initial)):
            self.expect(res, "convert/input", j, load(w + "/" + f))
        res.label("convert" + ": refused" * kept)
        if kept:
            self.expect(res, "convert/kept", "old", load(w + "/t2"))
            for f in ("b2", "i2"):
                if os.path.exists(w + "/" + f):
                    res.bad("convert/kept", f + " was written")
            return
        try:
            b, t, i2 = (load(w + "/" + f) for f in ("b2", "t2", "i2"))
        except (OSError, ValueError) as e:
            res.bad("convert/output", str(e))
            return
        want = {}
        for i, l, data in q["conds"]:
            o = want.setdefault(i, {})
            for x, v in data:
                if len(l) == 2:
                    o[x] = [-v if types[i] == "negflow" else v]
                else:
                    first = [0, 0, 1, 0] if types[i] == "Vphi" else [1, 0, 0, 0]
                    o.setdefault(x, [0.0, 0.0])[l != first] = v
        self.expect(res, "convert/boundary", {
            i: {"id": "n%d" % i, "data": [{"time": x, "values": o[x]}
                                          for x in sorted(o)],
                "type": "flow" if types[i] == "negflow" else types[i]}
            for i, o in want.items()}, {
                int(o["id"][1:]): dict(o, data=sorted(o["data"],
                                                      key=lambda p: p["time"]))
                for o in b["boundarycondition"]})
        for k in power:
            t["nodes"][k] = t["nodes"].get(k) or []
        nodes = {k: [] for k in power}
        for i, k, y in q["nodes"]:
            if k in power:
                nodes[k].append({"id": "n%d" % i, "G": y})
        nodes["gasNode"] = topology["nodes"]["gasNode"]
        self.expect(res, "convert/topology",
                    {"edges": topology["edges"], "nodes": nodes}, t)
        numbers = copy.deepcopy(q["initial"])
        for o in numbers:
            for p in o["data"] if isinstance(o["data"], list) else [o["data"]]:
                p["x"] = float(p["x"])
                p["value"] = [float(v) for v in p["value"]]
        self.expect(res, "convert/initial", numbers, i2 or [])
        res.nontrivial = len(want) > 1

    def gen_move(self, d):
        files = self.problem(d)
        comps = list(components(files["topology.json"]))
        c, t, _, o = d.choice(comps)
        to = d.weighted([(2, d.choice([x[1] for x in comps if x[0] == c])),
                         (1, {"nodes": "Sink", "connections": "Shortpipe"}[c]),
                         (1, "Newtype")])
        return {"what": "move", "files": files, "from": t, "to": to,
                "id": d.weighted([(8, o["id"]), (1, "nobody")])}

    def run_move(self, q, ctx, res, w):
        names = ("topology.json", "boundary.json", "initial.json", "control.json")
        for f in names:
            dump(w + "/" + f, q["files"][f])
        self.tool(ctx, res, "move_to_category", [q["from"], q["to"], q["id"]], w)
        moved = 0
        for f in names:
            want = copy.deepcopy(q["files"][f])
            for c in ("nodes", "connections"):
                l = (want.get(c) or {}).get(q["from"], [])
                o = next((x for x in l if x["id"] == q["id"]), None)
                if o is not None:
                    l.remove(o)
                    want[c].setdefault(q["to"], []).append(o)
                    moved += 1
            got = load(w + "/" + f)
            for j in (want, got):       # the order of a list has no meaning
                for c in ("nodes", "connections"):
                    for l in (j.get(c) or {}).values():
                        l.sort(key=lambda x: x["id"])
                    # nor has an empty list
                    if c in j:
                        j[c] = {k: v for k, v in j[c].items() if v}
            self.expect(res, "move", want, got)
        res.label("moved in %d files" % moved)
        res.nontrivial = moved > 0

    def gen_positions(self, d):
        files = self.problem(d)
        top = files["topology.json"]
        pos = {}
        missing = None
        for c, t, _, o in components(top):
            if c == "nodes":
                pos.setdefault(c, {}).setdefault(t, []).append(
                    {"id": o["id"], "x": d.float(-10, 10, 3), "y": d.int(-5, 5)})
        if d.bool(0.25):
            l = pos["nodes"][d.choice(sorted(pos["nodes"]))]
            missing = l.pop(d.raw(len(l) - 1))["id"]
        for l in pos["nodes"].values():
            l[:] = d.shuffle(l)
            if d.bool(0.2):
                l.append({"id": d.choice(["", "zzz", "m"]), "x": 1, "y": 1})
        if d.bool(0.2):
            pos["nodes"]["Oldtype"] = [{"id": "q", "x": 0, "y": 0}]
        for _, _, _, o in components(top):
            if d.bool(0.2):
                o.pop("x", None)
        return {"what": "positions", "top": top, "pos": pos, "missing": missing}

    def run_positions(self, q, ctx, res, w):
        dump(w + "/t.json", q["top"])
        dump(w + "/p.json", q["pos"])
        r = self.tool(ctx, res, "insert_positions", ["t.json", "p.json", "o.json"], w,
                      ok=None)
        self.expect(res, "positions/input", q["top"], load(w + "/t.json"))
        self.expect(res, "positions/input", q["pos"], load(w + "/p.json"))
        res.nontrivial = len(list(components(q["top"]))) > 2
        if q["missing"] is not None:
            res.label("a position is missing")
            if r.returncode == 0:
                res.bad("positions/missing", "no error, though %s has no position"
                        % q["missing"])
            return
        if r.returncode:
            res.bad("positions/failed", (r.stdout + r.stderr)[-300:])
            return
        want = copy.deepcopy(q["top"])
        where = {o["id"]: o for _, _, _, o in components(q["pos"])}
        for c, _, _, o in components(want):
            if c == "nodes":
                o["x"], o["y"] = where[o["id"]]["x"], where[o["id"]]["y"]
        got = load(w + "/o.json")
        for j in (want, got):
            for c in ("nodes", "connections"):
                for l in (j.get(c) or {}).values():
                    l.sort(key=lambda x: x["id"])
        self.expect(res, "positions", want, got)

    def gen_construct(self, d):
        files = self.problem(d)
        con = files["topology.json"].setdefault("connections", {})
        n = d.int(1, 3)
        ids = [["a%d" % i, "p%d" % d.int(0, 3)] for i in range(n)]
        for f in ("topology.json", "boundary.json", "initial.json", "control.json"):
            if f == "topology.json" or d.bool(0.7):
                l = [{"id": "g2p_%s_%s" % (a, b), "data": [
                    {"x": 0, "values": [d.int(1, 60), d.int(-5, 5)]}]} for a, b in ids]
                if f == "topology.json":
                    for o, (a, b) in zip(l, ids):
                        o.update({"from": "node_" + a, "to": b,
                                  "gas2power_q_coeff": d.float(0, 1, 2)})
                        del o["data"]
                files[f].setdefault("connections", {})["Gaspowerconnection"] = d.shuffle(l)
        del con
        new = d.weighted([(5, ["a9", "p2"]), (1, ids[0])])
        return {"what": "construct", "files": files, "new": new, "there": new in ids}

    def run_construct(self, q, ctx, res, w):
        names = ("topology.json", "boundary.json", "initial.json", "control.json")
        for f in names:
            dump(w + "/" + f, q["files"][f])
        a, b = q["new"]
        self.tool(ctx, res, "construct_gaspowerconnection", [a, b], w,
                  ok=not q["there"])
        for f in names:
            want = copy.deepcopy(q["files"][f])
            l = (want.get("connections") or {}).get("Gaspowerconnection")
            got = load(w + "/" + f)
            if l and not q["there"]:
                new = copy.deepcopy(l[0])
                new["id"] = "g2p_%s_%s" % (a, b)
                if f == "topology.json":
                    new.update({"from": "node_" + a, "to": b})
                l.append(new)
                for j in (want, got):
                    j["connections"]["Gaspowerconnection"].sort(key=lambda x: x["id"])
            self.expect(res, "construct", want, got)
        res.nontrivial = True

    def gen_stringify(self, d):
        files = self.problem(d)
        return {"what": "stringify", "in": d.choice([files["boundary.json"],
                                                     files["initial.json"]]),
                "there": d.bool(0.3), "answer": d.choice(["y", "yes", "n", "no",
                                                          "what", ""])}

    def run_stringify(self, q, ctx, res, w):
        dump(w + "/i.json", q["in"])
        old = {"old": 1}
        if q["there"]:
            dump(w + "/o.json", old)
        keep = q["there"] and q["answer"] not in ("y", "yes")
        self.tool(ctx, res, "stringify_values", ["i.json", "o.json"], w,
                  stdin=q["answer"] + "\n",
                  ok=None if keep and q["answer"] not in ("n", "no") else True)
        self.expect(res, "stringify/input", q["in"], load(w + "/i.json"))
        got = load(w + "/o.json")
        if keep:
            self.expect(res, "stringify/overwritten", old, got)
            return
        n = 0
        for _, _, _, o in components(got):
            for p in o.get("data") or []:
                for i, v in enumerate(p["values"]):
                    if not isinstance(v, str):
                        res.bad("stringify", "%r is no string" % (v,))
                        return
                    p["values"][i] = float(v)
                    n += 1
        for (_, _, _, a), (_, _, _, b) in zip(components(q["in"]), components(got)):
            for p, r in zip(a["data"], b.get("data") or []):
                for i, (x, y) in enumerate(zip(p["values"], r["values"])):
                    if abs(x - y) <= 1e-6:      # as precise as it is written
                        r["values"][i] = x
        self.expect(res, "stringify", q["in"], got)
        res.nontrivial = n > 2

    def gen_outflow(self, d):
        files = self.problem(d)
        n = d.int(0, 5)
        f = files["initial.json"]
        if n:
            f.setdefault("connections", {})["Shortpipe"] = [
                {"id": "s%d" % i, "data": [
                    {"x": x, "values": [40.0, d.float(-50, 50, 3)]} for x in (0, 1)]}
                for i in range(n)]
        return {"what": "outflow", "initial": f}

    def run_outflow(self, q, ctx, res, w):
        dump(w + "/initial.json", q["initial"])
        l = (q["initial"].get("connections") or {}).get("Shortpipe", [])
        if any(len(o["data"]) < 2 for o in l):
            res.skip = "short pipes with one point"
            return
        r = self.tool(ctx, res, "sum_outflow", ["initial.json"], w)
        vals = [o["data"][1]["values"][1] for o in l]
        try:
            x = float(r.stdout.strip().split()[-1])
        except (ValueError, IndexError):
            x = math.nan
        if not abs(x - sum(vals)) <= 1e-5 * (abs(sum(vals)) + 1e-9 * sum(map(abs, vals))) \
                + 1e-12 * sum(map(abs, vals)):
            res.bad("outflow", "prints %r, the sum is %r" % (r.stdout[-80:], sum(vals)))
        self.expect(res, "outflow/input", q["initial"], load(w + "/initial.json"))
        res.nontrivial = len(vals) > 1

    # ----------------------------------------------------------- statistics
    def gen_statistics(self, d):
        m = d.weighted([(4, d.int(2, 5)), (1, d.int(6, 14))])
        q = self.gen_states(d, m)
        q["what"] = "statistics"
        return q

    def values(self, p):
        for k, v in p.items():
            if k == "time":
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    yield k, i, x["value"]
            else:
                yield k, None, v

    def run_statistics(self, q, ctx, res, w):
        os.makedirs(w + "/output")
        ref, runs = q["states"][0], q["states"][1:]
        for i, s in enumerate(q["states"]):
            dump(w + "/ref.json" if i == 0 else w + "/output/output_%d" % i, s)
        dump(w + "/output/.output_hidden", {"nodes": 3})
        dump(w + "/output/else", {"nodes": 3})
        self.tool(ctx, res, "get_mean_sigma", ["output_", "ms.json"], w)
        self.tool(ctx, res, "compute_reference_discrepance",
                  ["ref.json", "output_", "rd.json"], w)
        if res.fail:
            return
        ms, rd = load(w + "/ms.json"), load(w + "/rd.json")
        ms = {o["id"]: o["data"] for _, _, _, o in components(ms)}
        rd = {o["id"]: o["data"] for _, _, _, o in components(rd)}
        ids = {c[1] for c in q["comps"]}
        if set(ms) != ids or set(rd) != ids:
            res.bad("statistics", "components %r and %r, expected %r" % (
                sorted(ms), sorted(rd), sorted(ids)))
            return
        all_runs = [{o["id"]: o["data"] for _, _, _, o in components(s)} for s in runs]
        ref = {o["id"]: o["data"] for _, _, _, o in components(ref)}
        for i in sorted(ids):
            for k in range(len(q["times"])):
                for key, j, _ in self.values(ref[i][k]):
                    def at(data, name):
                        try:
                            if data[k]["time"] != q["times"][k]:
                                return math.nan
                            v = data[k][name]
                            return v if j is None else v[j]["value"]
                        except (KeyError, IndexError, TypeError):
                            return math.nan
                    xs = [at(r[i], key) for r in all_runs]
                    mean = sum(xs) / len(xs)
                    mag = max(map(abs, xs)) + 1e-300
                    var = sum((x - mean) ** 2 for x in xs) / (len(xs) - 1) \
                        if len(xs) > 1 else 0.0
                    worst = max(abs(x - at(ref[i], key)) for x in xs)
                    for what, got, want, tol in (
                            ("mean", at(ms[i], key + "_mean"), mean, 1e-12 * mag),
                            ("sigma", at(ms[i], key + "_sigma"), math.sqrt(var),
                             1e-7 * mag),
                            ("discrepancy", at(rd[i], key), worst, 0.0)):
                        if not abs(got - want) <= tol:
                            res.bad(what, "%s %s at %r: %r, expected %r" % (
                                i, key, q["times"][k], got, want))
                            return
        res.nontrivial = len(runs) > 1 and len(ids) > 1

    # ------------------------------------------------------------------ all
    def describe(self, q):
        r = {k: q[k] for k in q if k in ("what", "k", "ask", "at", "times", "comps",
                                         "pick", "ids", "total", "broken", "add",
                                         "from", "to", "id", "missing", "new")}
        return r

    def run(self, q, ctx):
        res = Res()
        w = ctx.fresh()
        res.label(q["what"])
        try:
            getattr(self, "run_" + q["what"])(q, ctx, res, w)
        finally:
            ctx.drop(w)
        return res


if __name__ == "__main__":
    main(C28())
