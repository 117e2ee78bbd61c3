import common  # noqa: F401
import netgen
import sim
import model
import whole
from vlib import Check, Res, main


class C11(Check):
    id = "C11"
    cli = True
    rule = ("the run fails because of a time step, or it succeeds after at least one "
            "time step that had to be solved, under settings or inputs that were "
            "made harder")
    assumptions = [
        "a success is judged by recomputing the equations of nodes, pipes, short "
        "edges, power nodes and couplings from the reported states at 3 times the "
        "configured tolerance; states beyond 200 bar, below 0.01 bar or beyond 1e5 "
        "m^3/s are only required to be finite",
        "harder inputs: few or no iterations, tiny or zero tolerances, initial values "
        "far from a solution, loads that cannot be met, huge time steps"]
    quick_cases = 12000
    thorough_cases = 300000

    def gen(self, d):
        m = d.weighted([(3, "gas"), (3, "power"), (1, "both"), (2, "coupled"),
                        (2, "stoch")])
        net = sim.gen_net(d, gas=m in ("gas", "both"), power=m in ("power", "both"),
                          coupling=m == "coupled", stochastic=m == "stoch",
                          max_clusters=3, max_steps=4, wide=0.02)
        s = net["sim"]
        hard = []
        for _ in range(d.int(1, 3)):
            k = d.weighted([(3, "iterations"), (3, "tolerance"), (3, "initial"),
                            (3, "loads"), (1, "step"), (2, "retries")])
            hard.append(k)
            if k == "iterations":
                s["maximal_number_of_newton_iterations"] = d.weighted(
                    [(2, 0), (2, 1), (2, 2), (1, 3), (1, 5), (1, 8)])
            elif k == "tolerance":
                s["tolerance"] = d.weighted([
                    (1, 1e-3), (1, 1.0), (1, 1e-10), (2, 1e-12), (1, 1e-14),
                    (1, 1e-300), (1, 0.0), (1, 1e2)])
            elif k == "initial":
                net["initial"] = whole.random_state(d, net)
            elif k == "loads":
                f = d.weighted([(2, 3.0), (2, 30.0), (2, 1e3), (1, 1e6), (1, -1.0)])
                ids = [n["id"] for n in net["nodes"] if n["id"] in net["boundary"]]
                for i in d.sample(ids, d.int(1, max(1, len(ids) // 2))) if ids else []:
                    late = d.bool(0.5)     # only the later values
                    for j, p in enumerate(net["boundary"][i]):
                        if not late or j:
                            p[1][0] *= f
                            if len(p[1]) > 1 and d.bool(0.3):
                                p[1][1] *= f
            elif k == "step":
                s["desired_delta_t"] = s["end_time"] - s["start_time"]
            else:
                s["retries"] = d.int(0, 4)
        net["hard"] = sorted(set(hard))
        return net

    def describe(self, net):
        return {"hard": net["hard"], "sim": net["sim"],
                "nodes": [n["type"] for n in net["nodes"]],
                "edges": [e["type"] for e in net["edges"]]}

    def run(self, net, ctx):
        res = Res()
        s = sim.Sim(ctx, net)
        if s.crash(res):
            return res
        if not s.ok:
            msg = s.message()
            if s.states is not None or any(o[1] is not None for o in s.outputs):
                res.bad("states-after-failure", "status %s, but states were written: "
                        "%s" % (s.r.rc, msg))
            if s.r.rc != 1 or "rror" not in s.r.out + s.r.err:
                res.bad("silent", "status %s, message: %s" % (s.r.rc, msg))
            step = "data read" in s.r.out
            res.label("failed in a step" if step else "failed before")
            if not step:
                res.skip = "not a time step"
            res.nontrivial = step
            return res
        if s.out is None:
            res.bad("no-states", "success, but no readable states.json")
            return res
        bad = model.check_structure(net, s.out)
        if bad:
            res.bad(*bad[0])
            return res
        extreme = False
        for e in model.gas_edges(net):
            for k in range(1, s.out.steps()):
                for n in ("pressure", "flow"):
                    for v in s.out.data[e["id"]][k][n]:
                        v = v["value"]
                        if not model.finite(v):
                            res.bad("nonfinite", "%s step %d" % (e["id"], k))
                            return res
                        extreme |= abs(v) > 1e5 or n == "pressure" and \
                            not 0.01 < v < 200
        for i, data in s.out.data.items():
            for k, x in enumerate(data):
                for n, v in x.items():
                    if not isinstance(v, list) and not model.finite(v):
                        res.bad("nonfinite", "%s step %d: %s is %r" % (i, k, n, v))
                        return res
        tol = sim.tolf(net)
        t = net["sim"]["tolerance"]
        if not extreme:
            sim.put(res, model.check_gas_nodes(net, s.out, tol))
            sim.put(res, model.check_pipes(net, s.out, t))
            sim.put(res, model.check_short(net, s.out, tol))
            sim.put(res, model.check_coupling(net, s.out, tol))
        else:
            res.label("extreme states, not judged")
        sim.put(res, model.check_power(net, s.out, tol))
        if net["sim"]["maximal_number_of_newton_iterations"] == 0 and \
                "StochasticPQnode" not in [n["type"] for n in net["nodes"]]:
            res.label("success without iterations")
        res.label("success", *["success, hard: " + h for h in net["hard"]])
        res.nontrivial = s.out.steps() > 1 and not extreme
        if net["sim"]["tolerance"] == 0.0:
            res.label("success at tolerance 0")
        return res


if __name__ == "__main__":
    main(C11())
