import common  # noqa: F401
import netgen
import sim
import whole
from vlib import Check, Res, main


class C17(Check):
    id = "C17"
    drivers = ("optim",)
    rule = ("a network of at least two components whose equations are finite at the "
            "generated states, with at least 8 entries of the new-state derivative "
            "different from zero")
    assumptions = [
        "the true derivative is taken from central differences of the evaluated "
        "equations, extrapolated twice (Richardson); an entry may deviate by 3 times "
        "what the last extrapolation changed and what the rounding of the equations "
        "can contribute (measured) plus 1e-6 relative, so that entries at "
        "a point where the equations have no second derivative are judged loosely",
        "states are unrelated to any solution: both flow directions, laminar, "
        "transition and turbulent flow, both conversion directions"]
    quick_cases = 30000
    thorough_cases = 600000

    def gen(self, d):
        net = sim.mixed(d, max_clusters=3, max_steps=3, wide=0.02)
        last = whole.random_state(d, net)
        new = whole.random_state(d, net) if d.bool(0.7) else last
        s = net["sim"]
        t0 = s["start_time"]
        dt = d.weighted([(3, s["desired_delta_t"]), (1, 1.0), (1, 30.0), (1, 3600.0)])
        t1 = min(t0 + dt, s["end_time"])
        nctl = len(net["control"])
        prob = whole.embed(net)
        if nctl and net["edges"]:
            whole.extras(d, prob, 2 * len(net["edges"]), nctl)
        return {"op": "derivatives", "net": prob,
                "last": whole.initial_json(net, last),
                "new": whole.initial_json(net, new),
                "control": [d.float(-3, 9, 2) for _ in range(nctl)],
                "t0": t0, "t1": t1, "h": d.weighted([(4, 1e-4), (1, 3e-5)]),
                "transposed": d.bool(0.3),
                "n": [len(net["nodes"]), len(net["edges"])]}

    def describe(self, q):
        return {k: q[k] for k in ("t0", "t1", "control", "n", "h")}

    def run(self, q, ctx):
        res = Res()
        a = ctx.driver("optim").call(q)
        if "error" in a:
            res.skip = "refused"
            res.label("refused: " + a["error"][:60])
            return res
        if not a.get("finite"):
            res.skip = "not finite"
            return res
        for k in ("new", "last", "control", "cost/state", "cost/control",
                  "penalty/state", "penalty/control", "constraint/state",
                  "constraint/control"):
            if k not in a:
                continue
            c = a[k]
            if c["unclear"]:
                res.label("unclear entries in " + k)
            if c["visible"]:
                res.label("visible " + k)
            if c["worst"] in ("inf", "nan") or c["worst"] > 1:
                res.bad("derivative/" + k, "entry (%s,%s): %r, difference quotient %r "
                        "(+- %r)" % (c["row"], c["col"], c["given"], c["true"],
                                     c["err"]))
        if a["reassembled"] == "nan" or a["reassembled"] > 0:
            res.bad("reassembled", "overwriting the coefficients of another state "
                    "gives entries that differ by %r" % a["reassembled"])
        res.nontrivial = sum(q["n"]) >= 2 and a["new"]["visible"] >= 8
        return res


if __name__ == "__main__":
    main(C17())
