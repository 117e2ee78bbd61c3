import copy
import json
import common  # noqa: F401
import sim
import C07
from netgen import si
from vlib import Check, Res, main

# factors from the definitions of the units, not from the program
UNITS = {"m": 1.0, "in": 0.0254, "ft": 0.3048, "yd": 0.9144, "mi": 1609.344}
PREFIX = {"Y": 1e24, "Z": 1e21, "E": 1e18, "P": 1e15, "T": 1e12, "G": 1e9, "M": 1e6,
          "k": 1e3, "h": 100.0, "da": 10.0, "": 1.0, "d": 0.1, "c": 1e-2, "m": 1e-3,
          "mu": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "a": 1e-18, "z": 1e-21,
          "y": 1e-24}
NUMBERS = ["", "", "12.5 ", "1000 ", "0.25 ", "1e3 ", "2.5e-3 ", ".5 ", "7 "]
ALIAS = ("length", "diameter", "roughness")


def spell(v_si, num, pre, unit):
    f = (float(num) if num else 1.0) * PREFIX[pre] * UNITS[unit]
    return {"value": v_si / f, "unit": num + pre + unit}


class C14(Check):
    id = "C14"
    cli = True
    drivers = ("basics",)
    rule = ("both problems are simulated successfully, and a default was used by a "
            "component or overridden in one, or a quantity was written in a unit "
            "other than metres; for single conversions: prefix or number present")
    assumptions = [
        "a default and the written-out value must give identical results to the "
        "last bit; other units may differ by 1e-6 (rounding of the conversion), "
        "conversions by 1e-13 relative to their definition",
        "area and volume units with an exponent (m^2, m^3) are never accepted by "
        "the program's own validation and no input uses them"]
    quick_cases = 9000
    thorough_cases = 150000

    def gen(self, d):
        kind = d.weighted([(4, "default"), (3, "unit"), (3, "convert")])
        if kind == "convert":
            m = d.choice(sorted(MEASURES))
            u = d.choice(sorted(MEASURES[m]))
            return {"kind": kind, "measure": m, "unit": u,
                    "prefix": d.choice(sorted(PREFIX)), "number": d.choice(NUMBERS),
                    "value": d.choice([1.0, 0.0, 23.0, 0.1, -5.5, 1e6, 1e-7])}
        net = sim.mixed(d, max_clusters=3, max_steps=3, **(
            {"stochastic": d.bool(0.3)} if kind == "default" else {}))
        for n in net["nodes"]:
            if n["type"] == "StochasticPQnode":
                net["seeds"][n["id"]] = [d.raw(2 ** 31) for _ in range(8)]
        case = {"kind": kind, "net": net}
        comps = net["nodes"] + net["edges"]
        if kind == "default":
            ops = []
            for _ in range(d.int(1, 4)):
                c = d.choice(comps)
                props = [p for p in c if p not in C07.NOT_DEFAULT]
                if not props:
                    continue
                p = d.choice(props)
                if any(o[0] == c["type"] and o[1] == p for o in ops):
                    continue
                same = [x["id"] for x in comps if x["type"] == c["type"]]
                # these lack the property; the others keep their own value,
                # even if it is the default one
                lack = [i for i in same if d.bool(0.6)]
                ops.append([c["type"], p, c["id"], lack])
            case["ops"] = ops
        else:
            # an almost integral number of cells would hang on rounding
            case["spell"] = []
            for e in net["edges"]:
                if e["type"] != "Pipe":
                    continue
                n = max(1, round(si(e["length"]) / e["desired_delta_x"]))
                e["desired_delta_x"] = si(e["length"]) / (n - 0.37)
                for p in ALIAS:
                    if d.bool(0.6):
                        case["spell"].append(
                            [e["id"], p, d.choice(NUMBERS),
                             d.choice(["", "k", "c", "m", "mu", "d", "da", "h", "n",
                                       "p", "M", "G", "T", "a", "f"]),
                             d.choice(sorted(UNITS))])
        return case

    def run(self, case, ctx):
        res = Res()
        res.label(case["kind"])
        if case["kind"] == "convert":
            return self.convert(case, ctx, res)
        net = copy.deepcopy(case["net"])
        a_net = net
        b_net = copy.deepcopy(net)
        used = False
        if case["kind"] == "default":
            for typ, p, src, lack in case["ops"]:
                v = next(c[p] for c in net["nodes"] + net["edges"] if c["id"] == src)
                for c in a_net["nodes"] + a_net["edges"]:
                    if c["id"] in lack:
                        c[p] = copy.deepcopy(v)
                for c in b_net["nodes"] + b_net["edges"]:
                    if c["id"] in lack:
                        del c[p]
                        used = True
                        res.label("default used")
                    elif c["type"] == typ and c[p] != v:
                        res.label("default overridden")
                        used = True
                b_net["defaults"].setdefault(typ, {})[p] = v
                res.label("default:" + p if p in ALIAS else "default:other")
            if any(e.get("type") == "Pipe" and any(
                    si(e["length"]) / e["desired_delta_x"] > 60
                    for e in a_net["edges"] if e["type"] == "Pipe")
                    for e in a_net["edges"]):
                res.skip = "too many cells"
                return res
        else:
            for eid, p, num, pre, unit in case["spell"]:
                for e in b_net["edges"]:
                    if e["id"] == eid:
                        e[p] = spell(si(e[p]), num, pre, unit)
                        res.label("unit:" + unit)
                        used = used or num + pre + unit != "m"
        a, b = sim.Sim(ctx, a_net), sim.Sim(ctx, b_net)
        if a.crash(res) or b.crash(res):
            return res
        if case["kind"] == "default":
            if a.ok != b.ok:
                res.bad("default-verdict", "written out: %s, as default: %s" % (
                    a.message()[-300:], b.message()[-300:]))
            elif a.ok and a.states != b.states:
                res.bad("default-differs", "%r: results differ" % case["ops"])
            elif not a.ok:
                res.skip = "simulation failed"
        else:
            if a.ok and not b.ok and "data read" not in b.r.out:
                res.bad("unit-refused", b.message())
            elif not (a.ok and b.ok):
                res.skip = "simulation failed"
            else:
                w, msg = C07.compare(a.out, b.out, {}, set(), 1e-6)
                if w > 1e-6:
                    for n in (a_net, b_net):
                        n["sim"]["tolerance"] = 1e-11
                        n["sim"]["maximal_number_of_newton_iterations"] = 200
                    a, b = sim.Sim(ctx, a_net), sim.Sim(ctx, b_net)
                    if not (a.ok and b.ok):
                        res.skip = "not comparable"
                        return res
                    w, msg = C07.compare(a.out, b.out, {}, set(), 1e-6)
                    if w > 1e-6:
                        res.bad("unit-differs", "%r: %s" % (case["spell"], msg))
        res.nontrivial = used
        return res

    def convert(self, case, ctx, res):
        mult, off = MEASURES[case["measure"]][case["unit"]]
        unit = case["number"] + case["prefix"] + case["unit"]
        r = ctx.driver("basics").call({
            "op": "unit", "measure": case["measure"],
            "q": {"value": case["value"], "unit": unit}})
        res.nontrivial = bool(case["number"] or case["prefix"])
        # a spelling that can be read in two ways decides nothing
        readings = [(p, u) for u in MEASURES[case["measure"]] for p in PREFIX
                    if p + u == case["prefix"] + case["unit"]]
        if len(readings) > 1:
            res.skip = "ambiguous spelling"
            return res
        if "error" in r:
            res.bad("spelling-refused", "%s %r: %s" % (case["measure"], unit, r["error"]))
            return res
        x = case["value"] * (float(case["number"]) if case["number"] else 1.0) \
            * PREFIX[case["prefix"]]
        want = mult * x + off
        if abs(r["v"] - want) > 1e-13 * (abs(want) + abs(off)):
            res.bad("conversion", "%r %s = %r, is %r" % (
                case["value"], unit, r["v"], want))
        return res


MEASURES = {
    "length": {k: (v, 0.0) for k, v in UNITS.items()},
    "area": {"ac": (4046.9, 0.0), "acre": (4046.9, 0.0)},
    "volume": {"L": (1e-3, 0.0), "l": (1e-3, 0.0)},
    "pressure": {"Pa": (1.0, 0.0), "bar": (1e5, 0.0), "atm": (101325.0, 0.0),
                 "psi": (6894.757, 0.0)},
    "frequency": {"Hz": (1.0, 0.0), "per_min": (1 / 60, 0.0),
                  "per_minute": (1 / 60, 0.0)},
    "force": {"N": (1.0, 0.0)},
    "power": {"W": (1.0, 0.0), "PS": (735.49875, 0.0)},
    "mass": {"g": (1e-3, 0.0), "t": (1e3, 0.0), "oz": (0.028349523125, 0.0),
             "lb": (0.45359237, 0.0)},
    "volume_flux": {"m_cube_per_s": (1.0, 0.0),
                    "1000m_cube_per_hour": (1000 / 3600, 0.0)},
    "temperature": {"K": (1.0, 0.0), "C": (1.0, 273.15), "Celsius": (1.0, 273.15),
                    "F": (5 / 9, 459.67 * 5 / 9)},
}

if __name__ == "__main__":
    main(C14())
