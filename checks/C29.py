import common  # noqa: F401
import netgen
import sim
import whole
from vlib import Check, Res, main


class C29(Check):
    id = "C29"
    drivers = ("optim",)
    rule = ("at least two state steps and a cost that is not zero, or (for "
            "derivatives) a cost or penalty derivative that is not zero")
    assumptions = [
        "the sum over the time steps is the trapezoidal one over the state times "
        "after the start: a time counts with half the length of the steps next to it",
        "the cost of a compressor is the square of its control; components with "
        "further costs and penalties, with weights, are added to the network as "
        "components of their own, as well as costs and penalties of the whole",
        "the states are taken from the optimiser (that they solve the equations is "
        "checked by its residual here and by C10, C11 and C20)"]
    quick_cases = 30000
    thorough_cases = 600000

    def gen(self, d):
        if d.bool(0.25):
            net = sim.gen_net(d, max_clusters=2, max_steps=3)
            n, c = 2 * len(net["edges"]), len(net["control"])
            prob = whole.embed(net)
            if c:
                whole.extras(d, prob, n, c)
            st = whole.random_state(d, net)
            s = net["sim"]
            return {"op": "derivatives", "net": prob, "kind": "derivatives",
                    "last": whole.initial_json(net, st),
                    "new": whole.initial_json(net, st),
                    "control": [d.float(-9, 9, 2) for _ in range(c)],
                    "t0": s["start_time"], "t1": s["end_time"], "h": 1e-4,
                    "transposed": d.bool(0.3)}
        q = whole.session(d, net_share=0.5)
        q["op"] = "sensitivities"
        q["want_states"] = True
        if q["kind"] == "net":   # one value per time for all controls
            x = []
            for _ in q["control_times"]:
                x += [round(0.5 * d.float(-1, 1, 2), 4)] * q["c"]
            q["x"] = x
        else:
            q["x"] = whole.trajectory(d, q)
        return q

    def describe(self, q):
        return {k: q.get(k) for k in ("kind", "parts", "state_times",
                                      "control_times", "x", "extras", "cost",
                                      "penalty", "machines")}

    def run(self, q, ctx):
        res = Res()
        a = ctx.driver("optim").call(q)
        if "error" in a or "skip" in a:
            res.skip = "refused"
            res.label("refused: " + str(a)[:60])
            return res
        res.label(q["kind"])
        if q["kind"] == "derivatives":
            if not a.get("finite"):
                res.skip = "not finite"
                return res
            for k in ("cost/state", "cost/control", "penalty/state",
                      "penalty/control"):
                if k in a:
                    res.nontrivial |= a[k]["visible"] > 0
                    if a[k]["worst"] in ("inf", "nan") or a[k]["worst"] > 1:
                        res.bad("derivative/" + k, "entry %s: %r, difference "
                                "quotient %r (+- %r)" % (
                                    a[k]["col"], a[k]["given"], a[k]["true"],
                                    a[k]["err"]))
            return res
        if a.get("failed"):
            res.skip = "simulation failed"
            return res
        if not a["cost_ok"] or not a["pen_ok"]:
            res.bad("not-evaluated", "cost %s, penalty %s" % (
                a["cost_ok"], a["pen_ok"]))
            return res
        st, ct, c = q["state_times"], q["control_times"], q["c"]
        X = a["x"]
        cols = list(zip(*a["all_states"]))

        def control(t):
            return [netgen.interp([(ct[j], [X[j * c + i]]) for j in range(len(ct))],
                                  t)[0] for i in range(c)]

        def machine(cid, t):
            pts = [(ct[j], [netgen.interp(q["series"][cid], ct[j])[0] +
                            q["x"][j * c]]) for j in range(len(ct))]
            return netgen.interp(pts, t)[0]
        cost = pen = mag = 0.0
        for i in range(1, len(st)):
            t = st[i]
            w = 0.5 * ((st[i + 1] if i + 1 < len(st) else t) - st[i - 1])
            u = control(t)
            n = cols[i]
            parts = [(1.0, whole.term_value(q.get("cost", []), t, n, u))]
            for m, typ in q.get("machines", {}).items():
                if typ == "Compressorstation":
                    parts.append((1.0, machine(m, t) ** 2))
            parts += [(e["cost_weight"], whole.term_value(e["cost"], t, n, u))
                      for e in q.get("extras", [])]
            for f, v in parts:
                cost += w * f * v
                mag += abs(w * f * v)
            parts = [(1.0, whole.term_value(q.get("penalty", []), t, n, u))]
            parts += [(e["penalty_weight"], whole.term_value(e["penalty"], t, n, u))
                      for e in q.get("extras", [])]
            for f, v in parts:
                pen += w * f * v
                mag += abs(w * f * v)
        tol = 1e-9 * mag + 1e-10
        for k, want in (("cost", cost), ("penalty", pen), ("objective", cost + pen)):
            if not isinstance(a[k], (int, float)) or abs(a[k] - want) > tol:
                res.bad(k, "%r, not %r" % (a[k], want))
        if a["residual"] in ("inf", "nan") or \
                a["residual"] > 1.0001 * q["solver"]["tolerance"]:
            res.bad("states", "the states do not solve the equations: residual %r"
                    % a["residual"])
        res.nontrivial = len(st) > 2 and cost != 0
        if pen:
            res.label("penalty")
        if q.get("machines") and "Compressorstation" in q["machines"].values():
            res.label("compressors")
        return res


if __name__ == "__main__":
    main(C29())
