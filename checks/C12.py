import copy
import common  # noqa: F401
import netgen
import sim
import whole
from vlib import Check, Res, main

NUMBERS = ("G", "B", "gas2power_q_coeff", "power2gas_q_coeff", "desired_delta_x",
           "stability_parameter", "cut_off_factor", "sigma_P", "theta_P", "sigma_Q",
           "theta_Q", "number_of_stochastic_steps")
STRINGS = ("id", "from", "to", "balancelaw", "scheme")
UNITS = ("length", "diameter", "roughness")
SETTINGS = ("start_time", "end_time", "desired_delta_t", "use_simplified_newton",
            "maximal_number_of_newton_iterations", "tolerance", "retries")


def entries(f, name):
    """[(list, index, class, type)] of all component entries of a file."""
    return [(items, i, cls, typ) for cls, types in f[name + ".json"].items()
            for typ, items in types.items() for i in range(len(items))]


class C12(Check):
    id = "C12"
    cli = True
    rule = ("the problem runs without the inconsistency and has two or more "
            "components; the inconsistency is planted at a random place")
    assumptions = [
        "an input counts as rejected if the program ends with status 1, prints an "
        "error and leaves no states.json",
        "inconsistent means: id used twice, edge from or to something that is not a "
        "node of the problem, edge joining a node with itself, unknown component "
        "type, missing property or one of another type, unknown unit, data that are "
        "missing, given under another id or type, given twice, too short, with too "
        "many values, unsorted, malformed or that do not cover the times or the length they are needed "
        "for, missing or mistyped settings, times out of order",
        "booleans for numbers are not planted (the program converts them)"]
    quick_cases = 8000
    thorough_cases = 200000

    # ------------------------------------------------------------ mutations
    def topology(self, d, net, f):
        t = f["topology.json"]
        es = [e for e in entries(f, "topology")]
        nodes = [e for e in es if e[2] == "nodes"]
        edges = [e for e in es if e[2] == "connections"]
        k = d.choice(["dup", "dup_other", "dup_any", "unknown_node", "edge_as_node",
                      "loop", "type", "missing", "wrong", "unit", "typelist",
                      "nonobject"])
        items, i, cls, typ = d.choice(es)
        o = items[i]
        if k == "dup":
            n = copy.deepcopy(o)
            if d.bool(0.5):
                n["x"] = 77.0
            items.insert(d.raw(len(items)), n)
        elif k in ("dup_other", "dup_any"):
            # another component gets this id; its data are moved along
            other = [x for x in es if x[0][x[1]] is not o and
                     (k == "dup_any" or x[2] == cls)]
            if not other:
                return None
            items2, j, cls2, typ2 = d.choice(other)
            old, new = items2[j]["id"], o["id"]
            items2[j]["id"] = new
            for name in ("boundary", "initial", "control"):
                for it, q, c2, t2 in entries(f, name):
                    if it[q]["id"] == old:
                        it[q]["id"] = new
            if cls2 == "nodes":
                # edges of the renamed node go on to the one with the same id
                # or, if the id is the one of an edge, to the renamed node
                for it, q, _, _ in edges:
                    for w in ("from", "to"):
                        if it[q][w] == old:
                            it[q][w] = new
            k += " %s %s" % (cls, cls2)
        elif k in ("unknown_node", "edge_as_node", "loop"):
            if not edges:
                return None
            it, q, _, _ = d.choice(edges)
            w = d.choice(["from", "to"])
            if k == "unknown_node":
                it[q][w] = d.choice(["nowhere", "", it[q][w] + "0", it[q][w][:-1] + "~"])
            elif k == "edge_as_node":
                it[q][w] = d.choice(edges)[0][d.raw(0)]["id"] if d.bool(0.5) \
                    else it[q]["id"]
            else:
                it[q]["to" if w == "from" else "from"] = it[q][w]
        elif k == "type":
            # a type the program does not know
            new = d.choice([typ + "s", typ.lower(), "Thing", typ[:-1]])
            if d.bool(0.5):
                t[cls][new] = t[cls].pop(typ)
                b = f["boundary.json"].get(cls, {})
                if typ in b:
                    b[new] = b.pop(typ)
            else:
                t[cls][new] = [{"id": "surplus"}] if d.bool(0.5) else []
        elif k == "missing":
            req = [p for p in o if p in NUMBERS + STRINGS + UNITS]
            p = d.choice(req)
            del o[p]
            k += " " + p
        elif k == "wrong":
            p = d.choice([p for p in o if p in NUMBERS + STRINGS + UNITS])
            opts = [None, [], {}, [o[p]]]
            opts += [3, 1.5, False] if p in STRINGS else ["1.5", "abc"]
            o[p] = d.choice(opts)
            k += " " + p
        elif k == "unit":
            c = [(it[q], p) for it, q, _, _ in es for p in UNITS if p in it[q]]
            if not c:
                return None
            o, p = d.choice(c)
            u = o[p]["unit"]
            o[p]["unit"] = d.choice(["", "parsec", "x" + u, u + "x", "Pa", "kg", "qm",
                                     "km/h", "1 2 m"])
            if d.bool(0.3):
                o[p]["unit"] = u
                m = d.choice(["value", "unit"])
                if d.bool(0.5):
                    del o[p][m]
                else:
                    o[p][m] = None if m == "value" else 4
        elif k == "typelist":
            t[cls][typ] = d.choice([{"a": o}, "abc", 3, True])
        else:
            items[i] = d.choice(["abc", 3, None, [o], True])
        return k

    def series(self, d, net, f):
        opt = [x for x in ("lower_bounds", "upper_bounds", "constraint_lower_bounds",
                           "constraint_upper_bounds") if x + ".json" in f]
        name = d.weighted([(3, "boundary"), (3, "initial"), (3, "control")]
                          + [(2, x) for x in opt])
        es = entries(f, name)
        if not es:
            return None
        items, i, cls, typ = d.choice(es)
        o = items[i]
        data = o["data"]
        key = "x" if name == "initial" else "time"
        k = d.choice(["gone", "rename", "othertype", "type_gone", "class_gone",
                      "few", "many", "nodata", "empty", "unsorted", "late", "early", "nokey",
                      "wrong", "novalues", "valuetype", "twice", "file_gone", "noid",
                      "one"])
        j = d.raw(len(data) - 1)
        s = net["sim"]
        if k == "gone":
            del items[i]
            if not items and d.bool(0.5):
                del f[name + ".json"][cls][typ]
        elif k == "rename":
            o["id"] = d.choice(["nobody", o["id"] + "1", o["id"][:-1] + "~", ""])
        elif k == "othertype":
            if name != "boundary":
                return None
            del items[i]
            types = [x for x in ("Source", "Sink", "Innode", "PQnode", "PVnode",
                                 "Vphinode") if x != typ]
            f[name + ".json"][cls].setdefault(d.choice(types), []).append(o)
        elif k == "type_gone":
            del f[name + ".json"][cls][typ]
        elif k == "class_gone":
            del f[name + ".json"][cls]
        elif k == "few":
            data[j]["values"].pop()
        elif k == "many":
            data[j]["values"].append(d.choice([0.0, 1.0, data[j]["values"][0]]))
        elif k == "nodata":
            del o["data"]
        elif k == "empty":
            o["data"] = []
        elif k == "unsorted":
            if len(data) < 2:
                return None
            j2 = (j + 1) % len(data)
            if data[j][key] == data[j2][key]:
                return None
            data[j], data[j2] = data[j2], data[j]
        elif k in ("late", "early"):
            span = s["end_time"] - s["start_time"]
            if "constraint" in name and (net["constraint_settings"] or {}).get(
                    "evaluate_constraints_every_n", 1) > 1:
                return None     # which times are needed then is left open
            if name == "initial":
                if typ != "Pipe":
                    return None
                e = next(e for e in net["edges"] if e["id"] == o["id"])
                lo, hi = 0.0, netgen.si(e["length"])
                span = hi
                if k == "late":
                    return None        # initial data have to begin at 0: see one
            else:
                lo, hi = s["start_time"], s["end_time"]
            gap = span * d.weighted([(2, 0.3), (1, 1e-3), (1, 0.9)])
            if k == "late" and (name == "boundary" or "constraint" in name):
                # the values at the start itself are not needed
                gap = netgen.state_grid(net)[1] - lo + max(gap, 1e-3 * span)
            ts = [p[key] for p in data]
            a, b = (lo + gap, max(hi, ts[-1])) if k == "late" else (
                min(lo, ts[0]), hi - gap)
            if len(ts) == 1:
                new = [a]
            else:
                n = len(ts) - 1
                new = [a + (b - a) * q / n for q in range(n)] + [b]
                if k == "late" and d.bool(0.5):
                    new = [max(a, t) for t in ts]
                    new = [t + 1e-4 * span * q for q, t in enumerate(new)]
            for p, t in zip(data, new):
                p[key] = t
        elif k == "nokey":
            del data[j][key]
        elif k == "wrong":
            data[j][key] = d.choice([str(data[j][key]), None, [data[j][key]], {}])
        elif k == "novalues":
            del data[j]["values"]
        elif k == "valuetype":
            data[j]["values"] = d.choice(
                [1.0, "1.0", None, {}, ["1.0"] * len(data[j]["values"]),
                 [None] * len(data[j]["values"])])
        elif k == "twice":
            # conflicting data for the same component
            n = copy.deepcopy(o)
            for p in n["data"]:
                p["values"] = [v + 1.0 for v in p["values"]]
            items.insert(d.raw(len(items)), n)
        elif k == "file_gone":
            del f[name + ".json"]
        elif k == "noid":
            if d.bool(0.5):
                del o["id"]
            else:
                o["id"] = d.choice([3, None, [o["id"]], {}])
        elif k == "one":
            if name != "initial" or typ != "Pipe":
                return None
            off = d.choice([1.0, -1.0, 1e-3]) * data[-1][key]
            for p in data:
                p[key] += off
        return name + " " + k

    def settings(self, d, net, f):
        pd = f["problem_data.json"]
        s = pd["simulation_settings"]
        k = d.choice(["missing", "wrong", "order", "equal", "step", "nosettings",
                      "noproblem", "nopath", "badpath", "file", "control_step",
                      "garbage"])
        if k == "missing":
            p = d.choice([x for x in SETTINGS if x != "retries"])
            del s[p]
            k += " " + p
        elif k == "wrong":
            p = d.choice(SETTINGS)
            s[p] = d.choice(["abc", "1.0", None, [], {}, [s[p]]])
            k += " " + p
        elif k == "order":
            s["end_time"] = s["start_time"] - d.choice([1e-3, 1.0, 1e4])
        elif k == "equal":
            s["end_time"] = s["start_time"]
        elif k == "step":
            s["desired_delta_t"] = d.choice([0.0, -1.0, -1e-3])
        elif k == "nosettings":
            del pd["simulation_settings"]
        elif k == "noproblem":
            del pd["problem_data"]
        elif k == "nopath":
            del pd["problem_data"][d.choice(["topology_json", "boundary_json"])]
        elif k == "badpath":
            pd["problem_data"][d.choice(["topology_json", "boundary_json"])] = \
                d.choice(["nofile.json", "", 3, None, "../topology.json", []])
        elif k == "file":
            del f[d.choice([x for x in ("problem_data.json", "topology.json",
                                        "boundary.json", "initial.json",
                                        "control.json") if f[x] or
                            x != "control.json"])]
        elif k == "control_step":
            if not net["control"]:
                return None
            pd["control_settings"] = d.choice(
                [{"desired_delta_t": 0.0}, {"desired_delta_t": -5.0},
                 {"number_of_steps": 0}, {"number_of_steps": -3},
                 {"number_of_steps": "abc"}, {"desired_delta_t": "abc"}])
        elif k == "garbage":
            n = d.choice(["problem_data.json", "topology.json", "boundary.json",
                          "initial.json"])
            f[n] = d.choice(["", "{", "[1, 2", '{"a": }', "abc", '{"a" 1}'])
        return k

    def gen(self, d):
        net = None
        if d.bool(0.25):
            net = whole.gen_opt(d, max_steps=3)
            if net:
                net["control"] = net["witness"]
                whole.constrain(net, None, None)
        if net is None:
            net = sim.mixed(d, max_clusters=3, max_steps=2,
                            stochastic=d.bool(0.2))
        if d.bool(0.02):
            netgen.lengthen(d, net)
        f = netgen.to_files(net)
        for _ in range(12):
            g = copy.deepcopy(f)
            kind = d.weighted([(3, "topology"), (3, "series"), (2, "settings")])
            k = getattr(self, kind)(d, net, g)
            if k is not None:
                break
        else:
            return {"net": net, "files": f, "bad": None}
        return {"net": net, "files": f, "mutated": g, "bad": kind + " " + k}

    def describe(self, c):
        return {"inconsistency": c["bad"], "nodes": [n["type"] for n in c["net"]["nodes"]],
                "edges": [n["type"] for n in c["net"]["edges"]]}

    def run(self, c, ctx):
        res = Res()
        net = c["net"]
        base = sim.Sim(ctx, net, files=c["files"], timeout=20)
        if base.r.hang and net.get("optimize"):
            res.skip = "optimization takes long"
            return res
        if base.crash(res):
            return res
        if not base.ok:
            if "data read" not in base.r.out:
                res.bad("benign", "refused: " + base.message())
                return res
            res.skip = "run failed"
            return res
        if c["bad"] is None:
            res.skip = "no inconsistency"
            return res
        k = c["bad"]
        s = sim.Sim(ctx, net, files=c["mutated"])
        res.label(k)
        if s.crash(res):
            return res
        if s.ok:
            res.bad("accepted " + k, "the input was accepted: "
                    + " ".join(s.r.out.split())[-200:])
        else:
            if s.r.rc != 1 or "rror" not in s.r.out + s.r.err:
                res.bad("silent " + k, "status %s, message %s" % (s.r.rc, s.message()))
            if any(o[1] is not None or o[2] is not None for o in s.outputs):
                res.bad("states " + k, "results were written")
        res.nontrivial = len(net["nodes"]) + len(net["edges"]) > 1
        return res


if __name__ == "__main__":
    main(C12())
