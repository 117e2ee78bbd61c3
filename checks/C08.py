import common  # noqa: F401
import sim
import model
import netgen
from vlib import Check, Res, main


class C08(Check):
    id = "C08"
    cli = True
    rule = ("the simulation succeeds over at least two steps or at least two "
            "components")
    assumptions = [
        "start values are compared at 1e-9 relative (pressure goes through density)",
        "the number of steps is ceil(span/step), where span/step may be off by "
        "rounding and the step may be rounded once before use"]
    quick_cases = 12000
    thorough_cases = 300000

    def gen(self, d):
        net = sim.mixed(d, max_clusters=3, wide=0.04)
        # wider choice of grids than the other checks: short spans, huge and
        # tiny magnitudes, spans that are no multiple of the step
        k = d.raw(3)
        if k == 1:
            s = net["sim"]
            dt = s["desired_delta_t"]
            span = s["end_time"] - s["start_time"]
            f = d.weighted([(1, 0.3333), (1, 7.0), (1, 0.07), (1, 1.7)])
            s["desired_delta_t"] = span * f if f < 1 else dt * f
        elif k == 2:
            off = d.weighted([(1, 1e6), (1, 1.6e9), (1, -1e7), (1, 0.3)])
            s = net["sim"]
            s["start_time"] += off
            s["end_time"] += off
            for t in (net["boundary"], net["control"]):
                for pts in t.values():
                    for p in pts:
                        p[0] += off
                    pts[0][0] = min(pts[0][0], s["start_time"])
                    pts[-1][0] = max(pts[-1][0], s["end_time"])
        return net

    def run(self, net, ctx):
        res = Res()
        s = sim.Sim(ctx, net)
        if not sim.usable(s, res):
            return res
        sim.put(res, model.check_times(net, s.out))
        if not res.findings:
            sim.put(res, model.check_initial(net, s.out))
        n = s.out.steps()
        res.label("steps=%d" % min(n - 1, 9))
        for i, pts in net["initial"].items():
            if len(pts) > 2:
                res.label("initial values between given points")
        res.nontrivial = n > 2 or len(s.out.data) > 1
        if s.out.steps() == 0 and s.out.data:
            res.bad("no-times", "no time reported")
        return res


if __name__ == "__main__":
    main(C08())
