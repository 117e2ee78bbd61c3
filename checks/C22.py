import copy
import re
import common  # noqa: F401
import model
import netgen
import sim
import whole
from vlib import Check, Res, main


def plain(net, control):
    n = copy.deepcopy(net)
    n["control"] = control
    n["optimize"] = None
    for k in ("lower_bounds", "upper_bounds", "constraint_lower_bounds",
              "constraint_upper_bounds"):
        n.pop(k, None)
    return n


def sink_pressures(net, out):
    """{sink: [pressure at every time after the start]}"""
    res = {}
    for v in net["nodes"]:
        if v["type"] != "ConstraintSink":
            continue
        for e in net["edges"]:
            if v["id"] in (e["from"], e["to"]):
                end = 0 if e["from"] == v["id"] else 1
                res[v["id"]] = [out.pq(e["id"], k, end)[0]
                                for k in range(1, out.steps())]
                break
    return res


class C22(Check):
    id = "C22"
    cli = True
    rule = ("the optimiser reports success for a problem with two or more control "
            "values and a control trajectory is known that satisfies all constraints")
    assumptions = [
        "gas networks with 1-5 compressors or control valves and up to 6 time steps; "
        "constraint sinks are bounded around the pressures of a known (witness) "
        "control trajectory, which the optimiser is not told; margins 0.05 bar or "
        "more",
        "only runs for which the optimiser itself reports success are judged, a run "
        "that does not say it failed counts as success",
        "bounds of controls at 1e-6, constraints at 2e-3 bar, "
        "equality of states with those of a plain simulation at 1e-6, "
        "objective against the start at 1e-4 relative",
        "evaluate_constraints_every_n above 1: only times that are constraint times "
        "in every reading"]
    quick_cases = 3000
    thorough_cases = 30000

    def gen(self, d):
        net = whole.gen_opt(d)
        if net is not None:
            net["hopeless"] = d.bool(0.08)
        return net

    def describe(self, net):
        return {"edges": [e["type"] for e in net["edges"]], "sim": net["sim"],
                "control_settings": net["control_settings"],
                "constraint_settings": net["constraint_settings"],
                "margins": net["margins"], "start": net["start_kind"]}

    def run(self, net, ctx):
        res = Res()
        if net is None:
            res.skip = "no controls"
            return res
        net = copy.deepcopy(net)
        wit = sim.Sim(ctx, plain(net, net["witness"]))
        if not sim.usable(wit, res):
            return res
        st = netgen.state_grid(net)
        grid = netgen.control_grid(net)
        whole.constrain(net, sink_pressures(net, wit.out), st[1:])
        starts = {c: [[t, netgen.interp(w, t)] for t in grid]
                  for c, w in net["control"].items()}
        if net["hopeless"] and net["boundary"]:
            # the start cannot be simulated: no result, an error
            bad = net["boundary"]
            i = sorted(bad)[0]
            for p in bad[i]:
                p[1][0] = -1e7
        begin = sim.Sim(ctx, plain(net, net["control"]))
        if begin.crash(res):
            return res
        s = sim.Sim(ctx, net, timeout=15)
        if s.r.hang:        # the optimiser may take thousands of iterations
            res.skip = "optimization takes long"
            return res
        if s.crash(res):
            return res
        text = s.r.out + s.r.err
        if not s.ok:
            if any(o[1] is not None for o in s.outputs):
                res.bad("states-after-failure", s.message())
            if begin.ok and not net["hopeless"] and \
                    "FAILED TO FIND AN OPTIMUM" not in text:
                # a tolerance at the limit of what the Newton iteration reaches?
                easy = copy.deepcopy(net)
                easy["sim"]["tolerance"] = 1e-5
                if sim.Sim(ctx, easy, timeout=15).r.rc not in (0, None):
                    res.bad("failed", "the optimization ended with an error, at "
                            "tolerance 1e-5 too: " + s.message())
            res.label("failed")
            res.skip = "optimization failed"
            return res
        if "FAILED TO FIND AN OPTIMUM" in text:
            res.label("no optimum found")
            m = re.search(r"^EXIT: (.*)$", text, re.M)
            m = m.group(1)[:60] if m else "?"
            res.skip = "no optimum: " + m
            if not net["hopeless"]:
                # started at a feasible trajectory, too?
                again = copy.deepcopy(net)
                again["control"] = net["witness"]
                again["sim"]["tolerance"] = 1e-7
                s = sim.Sim(ctx, again, timeout=15)
                if s.ok and "FAILED TO FIND AN OPTIMUM" in s.r.out:
                    res.label("no optimum from the witness")
                    if "infeasib" in m and "infeasib" in s.r.out:
                        res.bad("infeasible", "a feasible problem is called "
                                "infeasible, even if started at a feasible point")
            return res
        if s.out is None or s.controls is None:
            res.bad("no-results", s.message())
            return res
        b = model.check_structure(net, s.out)
        if b:
            res.bad(*b[0])
            return res
        got = {}
        for cls, types in s.controls.items():
            for typ, items in types.items():
                for o in items:
                    if o["id"] in got:
                        res.bad("control-twice", o["id"])
                    got[o["id"]] = [[p["time"], p["values"]] for p in o["data"]]
                    kind = [e["type"] for e in net["edges"] if e["id"] == o["id"]]
                    if cls != "connections" or kind != [typ]:
                        res.bad("control-misfiled", "%s/%s/%s" % (cls, typ, o["id"]))
        if sorted(got) != sorted(net["control"]):
            res.bad("controls", "reported for %s, not %s" % (
                sorted(got), sorted(net["control"])))
            return res
        # the grid and the bounds
        for c, pts in got.items():
            if len(pts) != len(grid) or any(
                    abs(p[0] - t) > 1e-9 * max(1, abs(t)) for p, t in zip(pts, grid)):
                res.bad("grid", "%s: times %s, not %s" % (
                    c, [p[0] for p in pts][:8], grid[:8]))
                return res
            for t, v in pts:
                lo = netgen.interp(net["lower_bounds"][c], t)[0]
                hi = netgen.interp(net["upper_bounds"][c], t)[0]
                if len(v) != 1 or not lo - 1e-6 <= v[0] <= hi + 1e-6:
                    res.bad("bounds", "%s at %r: %r not in [%r, %r]" % (
                        c, t, v, lo, hi))
        # the states
        rep = sim.Sim(ctx, plain(net, got))
        if rep.crash(res):
            return res
        if not rep.ok or rep.out is None:
            res.bad("not-reproduced", "the plain simulation fails: " + rep.message())
            return res
        self.compare(res, s.out, rep.out)
        sim.put(res, model.check_times(net, s.out))
        # the constraints
        n = (net["constraint_settings"] or {}).get("evaluate_constraints_every_n")
        ct = whole.constraint_times(st, n)
        for i, ps in sink_pressures(net, s.out).items():
            for t, p in zip(st[1:], ps):
                if t not in ct:
                    continue
                lo = netgen.interp(net["constraint_lower_bounds"][i], t)[0]
                hi = netgen.interp(net["constraint_upper_bounds"][i], t)[0]
                if not lo - 2e-3 <= p <= hi + 2e-3:
                    res.bad("constraint", "%s at %r: %r not in [%r, %r]" % (
                        i, t, p, lo, hi))
                if min(p - lo, hi - p) < 1e-3:
                    res.label("active constraint")
        # the objective
        cost = whole.machine_cost(net, got, st)
        for name, want in (("Cost", cost), ("Penalty", 0.0),
                           ("Overall objective", cost)):
            m = re.search(r"^%s: (\S+)$" % name, text, re.M)
            if not m or not abs(float(m.group(1)) - want) <= 2e-5 * abs(want) + 1e-9:
                res.bad("reported-cost", "%s: %s, recomputed %r" % (
                    name, m.group(1) if m else "nothing", want))
        for name, ctl, sm in (("start", starts, begin), ("witness", {
                c: [[t, netgen.interp(w, t)] for t in grid]
                for c, w in net["witness"].items()}, wit)):
            if not self.feasible(net, ctl, sm, st):
                continue
            c0 = whole.machine_cost(net, ctl, st)
            res.label("compared with the " + name)
            if cost > c0 + 1e-4 * abs(c0) + 1e-3:
                # the problem is not convex: a local minimum is all one can ask
                if not self.descends(net, got, ctl, cost, c0, st, ctx):
                    res.label("local minimum")
                    continue
                res.bad("worse-than-" + name, "cost %r, %s has %r" % (cost, name, c0))
        total = sum(len(p) for p in got.values())
        res.nontrivial = total > 1
        res.label("controls=%d" % len(got), "start " + net["start_kind"])
        if net["margins"]:
            res.label("with constraints")
        return res

    def descends(self, net, got, ctl, cost, c0, st, ctx):
        """Some points between the result and a better feasible trajectory, near
        the result, are feasible and better by what convexity of the cost
        promises."""
        for lam in (0.01, 0.05, 0.2):
            mid = {c: [[t, [v[0] + lam * (w[1][0] - v[0])]]
                       for (t, v), w in zip(pts, ctl[c])] for c, pts in got.items()}
            if whole.machine_cost(net, mid, st) > cost - 0.9 * lam * (cost - c0):
                return False
            sm = sim.Sim(ctx, plain(net, mid))
            if not self.feasible(net, mid, sm, st, 1e-5):
                return False
        return True

    def feasible(self, net, ctl, sm, st, tol=0.0):
        """Satisfies all bounds and (at all times) the constraints."""
        if not sm.ok or sm.out is None:
            return False
        for c, pts in ctl.items():
            for t, v in pts:
                if not netgen.interp(net["lower_bounds"][c], t)[0] - tol <= v[0] \
                        <= netgen.interp(net["upper_bounds"][c], t)[0] + tol:
                    return False
        for i, ps in sink_pressures(net, sm.out).items():
            for t, p in zip(st[1:], ps):
                if not netgen.interp(net["constraint_lower_bounds"][i], t)[0] - tol \
                        <= p <= \
                        netgen.interp(net["constraint_upper_bounds"][i], t)[0] + tol:
                    return False
        return True

    def compare(self, res, a, b):
        def num(x, y, where):
            if isinstance(x, dict):
                for k in x:
                    num(x[k], y.get(k), where + "/" + k)
            elif isinstance(x, list):
                if not isinstance(y, list) or len(x) != len(y):
                    res.bad("states", where + ": other shape")
                else:
                    for i, (p, q) in enumerate(zip(x, y)):
                        num(p, q, "%s/%d" % (where, i))
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                if not isinstance(y, (int, float)) or \
                        not abs(x - y) <= 1e-6 * max(1, abs(y)):
                    if len(res.findings) < 3:
                        res.bad("states", "%s: %r, but %r in a plain simulation "
                                "with these controls" % (where, x, y))
            elif x != y:
                res.bad("states", "%s: %r and %r" % (where, x, y))
        if sorted(a.data) != sorted(b.data):
            res.bad("states", "other components")
            return
        for i in sorted(a.data):
            num(a.data[i], b.data[i], i)


if __name__ == "__main__":
    main(C22())
