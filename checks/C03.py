import common  # noqa: F401
import netgen
import sim
import model
from vlib import Check, Res, main


class C03(Check):
    id = "C03"
    cli = True
    rule = ("the simulation succeeds and has a compressor or control valve whose "
            "control differs from zero")
    assumptions = [
        "the control grid is recomputed from control_settings (step width, number "
        "of points, or the simulation grid); given controls may have other points "
        "than the grid", "pressures and flows are compared at 3 times the tolerance"]
    quick_cases = 12000
    thorough_cases = 300000

    def gen(self, d):
        net = sim.gen_net(d, max_clusters=3, wide=0.03, types=d.weighted([
            (2, netgen.SHORT), (2, netgen.CONTROLLED)]))
        return net

    def run(self, net, ctx):
        res = Res()
        s = sim.Sim(ctx, net)
        if not sim.usable(s, res):
            return res
        stats = {}
        sim.put(res, model.check_short(net, s.out, sim.tolf(net), stats))
        res.label(*sorted(stats))
        cs = net["control_settings"]
        res.label("grid:" + ("simulation" if cs is None else sorted(cs)[0]))
        for e in net["edges"]:
            if e["type"] in netgen.CONTROLLED:
                vs = [p[1][0] for p in net["control"][e["id"]]]
                if max(vs) != min(vs):
                    res.label("control varies")
                if len(net["control"][e["id"]]) > 2:
                    res.label("control has inner points")
        if any(e["type"] == "Shortpipe" for e in net["edges"]):
            res.label("Shortpipe")
        res.nontrivial = bool(stats)
        return res


if __name__ == "__main__":
    main(C03())
