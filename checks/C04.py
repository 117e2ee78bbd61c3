import common  # noqa: F401
import sim
import model
from vlib import Check, Res, main


class C04(Check):
    id = "C04"
    cli = True
    rule = "the simulation succeeds and the power network has a transmission line"
    assumptions = [
        "power sums are recomputed in Python from the reported voltages and phases "
        "and compared at 3 times the Newton tolerance",
        "1-7 nodes, in some up to 25, cycles and parallel lines included"]
    quick_cases = 12000
    thorough_cases = 300000

    def gen(self, d):
        m = d.weighted([(5, "power"), (1, "coupled"), (1, "both"), (1, "stoch")])
        return sim.gen_net(d, gas=m == "both", power=True, coupling=m == "coupled",
                           stochastic=m == "stoch", max_clusters=2, wide=0.03)

    def run(self, net, ctx):
        res = Res()
        s = sim.Sim(ctx, net)
        if not sim.usable(s, res):
            return res
        stats = {}
        sim.put(res, model.check_power(net, s.out, sim.tolf(net), stats))
        res.label(*sorted(stats))
        lines = [e for e in net["edges"] if e["type"] == "Transmissionline"]
        pairs = {frozenset((e["from"], e["to"])) for e in lines}
        if len(pairs) < len(lines):
            res.label("parallel lines")
        if len(lines) >= sum("G" in n for n in net["nodes"]):
            res.label("cycle")
        res.nontrivial = bool(lines)
        return res


if __name__ == "__main__":
    main(C04())
