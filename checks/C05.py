import common  # noqa: F401
import sim
import model
from vlib import Check, Res, main


class C05(Check):
    id = "C05"
    cli = True
    rule = ("the simulation succeeds with a gas power connection through which more "
            "than 1e-3 m^3/s of gas flows")
    assumptions = [
        "power at the plant is recomputed from the reported voltages and phases; "
        "conversion is the documented polynomial between -60 and 60 m^3/s",
        "compared at 3 times the Newton tolerance"]
    quick_cases = 12000
    thorough_cases = 300000

    def gen(self, d):
        return sim.gen_net(d, coupling=True, max_clusters=2, max_steps=4, wide=0.03)

    def run(self, net, ctx):
        res = Res()
        s = sim.Sim(ctx, net)
        if not sim.usable(s, res):
            return res
        stats = {}
        tol = sim.tolf(net)
        sim.put(res, model.check_coupling(net, s.out, tol, stats))
        sim.put(res, model.check_gas_nodes(net, s.out, tol))
        res.label(*sorted(stats))
        res.nontrivial = any(
            abs(s.out.pq(e["id"], k, 0)[1]) > 1e-3 for e in net["edges"]
            if e["type"] == "Gaspowerconnection" for k in range(1, s.out.steps()))
        return res


if __name__ == "__main__":
    main(C05())
