import common  # noqa: F401
import sim
import model
from vlib import Check, Res, main


class C02(Check):
    id = "C02"
    cli = True
    rule = ("the simulation succeeds, the network has a pipe, and in some pipe the "
            "friction term is at least 100 times the tolerance")
    assumptions = [
        "the box scheme residual is recomputed in Python from the reported "
        "pressures and flows; density = p/(c2(1+alpha p)) with the documented "
        "constants", "the residual of each cell may be 3 times the Newton tolerance "
        "plus 3e-13 of its largest term (rounding of the reported pressures)"]
    quick_cases = 9000
    thorough_cases = 200000

    def gen(self, d):
        return sim.gen_net(d, max_clusters=4, max_steps=5, wide=0.03)

    def run(self, net, ctx):
        res = Res()
        s = sim.Sim(ctx, net)
        if not sim.usable(s, res):
            return res
        stats = {}
        sim.put(res, model.check_pipes(net, s.out, net["sim"]["tolerance"], stats))
        res.label(*sorted(stats))
        res.nontrivial = stats.get("friction-visible", 0) > 0
        return res


if __name__ == "__main__":
    main(C02())
