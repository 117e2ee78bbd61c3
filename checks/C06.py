import common  # noqa: F401
import math
import sim
import model
import netgen
from netgen import interp
from vlib import Check, Res, main


def relax(node, name, last, mu, dt):
    """One outer step of the load process without noise, how far noise can
    move it away (with probability 1 - 1e-14), and the standard deviation of
    the noise if the cut-off is not met."""
    a = node["stability_parameter"]
    c = node["cut_off_factor"]
    theta, sigma = node["theta_" + name], node["sigma_" + name]
    n = node["number_of_stochastic_steps"]
    if theta * dt / n >= a:
        n = math.ceil(theta * dt / a) + 1
    h = dt / n
    x = last
    var = 0.0
    for _ in range(n):
        x = x + theta * (mu - x) * h
        var = (1 - theta * h) ** 2 * var + sigma * sigma * h
        lo, hi = sorted(((1 - c) * mu, (1 + c) * mu))
        x = min(max(x, lo), hi)
    # the cut-off never enlarges distances, so the noise moves the value by no
    # more than twice the range of the driving random walk
    spread = 8 * sigma * math.sqrt(h) if n == 1 else 16 * sigma * math.sqrt(dt)
    return x, spread, math.sqrt(var)


def chi2_range(n):
    """Wilson-Hilferty bounds at 7.5 standard deviations."""
    c = 2 / (9 * n)
    return [n * max(0.0, 1 - c + z * math.sqrt(c)) ** 3 for z in (-7.5, 7.5)]


class C06(Check):
    id = "C06"
    cli = True
    rule = ("both runs succeed, some load has a positive volatility and takes at "
            "least one step")
    assumptions = [
        "means are never zero (the cut-off interval of a zero mean is a point)",
        "inner steps are Euler-Maruyama steps with normal increments: bounds on the "
        "distance from the noiseless relaxation and on the sum of squares over a run "
        "hold with a probability above 1 - 1e-12 per run, and runs are seeded; the "
        "law of the increments itself is judged by C25",
        "number_of_stochastic_steps is positive"]
    quick_cases = 7000
    thorough_cases = 150000

    def gen(self, d):
        law = d.bool(0.15)
        net = sim.gen_net(d, gas=False, stochastic=True, max_steps=6, wide=0.03)
        seeded = d.bool(0.8)
        for n in net["nodes"]:
            if n["type"] == "StochasticPQnode":
                for _, v in net["boundary"][n["id"]]:
                    for i in (0, 1):
                        if abs(v[i]) < 1e-3:
                            v[i] = 0.01
                if any(v[i] * net["boundary"][n["id"]][0][1][i] <= 0
                       for _, v in net["boundary"][n["id"]] for i in (0, 1)):
                    # a mean that crosses zero
                    net["boundary"][n["id"]] = [
                        [t, list(net["boundary"][n["id"]][0][1])]
                        for t, _ in net["boundary"][n["id"]]]
                if seeded:
                    net["seeds"][n["id"]] = [d.choice([0, 1, 2 ** 32 - 1, d.raw(2 ** 31)])
                                             for _ in range(8)]
        if not law and d.bool(0.2):
            # means that vary, and hardly any noise: the relaxation is visible
            si = net["sim"]
            dt = si["desired_delta_t"] = (si["end_time"] - si["start_time"]) / d.int(1, 6)
            for n in net["nodes"]:
                if n["type"] == "StochasticPQnode":
                    n["cut_off_factor"] = 5.0
                    first = net["boundary"][n["id"]][0][1]
                    times = sorted({si["start_time"], si["end_time"],
                                    d.float(si["start_time"], si["end_time"])})
                    net["boundary"][n["id"]] = [
                        [t, [x * d.float(0.5, 1.2) for x in first]] for t in times]
                    for nm in ("P", "Q"):
                        n["theta_" + nm] = d.float(0.05, 0.9) / dt
                        n["sigma_" + nm] = d.weighted([(2, 0.0), (1, 1e-6)]) / math.sqrt(dt)
        if law:
            # many steps, a wide cut-off and little noise: the law is visible
            si = net["sim"]
            si["desired_delta_t"] = (si["end_time"] - si["start_time"]) / d.int(30, 60)
            for n in net["nodes"]:
                if n["type"] == "StochasticPQnode":
                    dt = si["desired_delta_t"]
                    n["cut_off_factor"] = 5.0
                    for nm in ("P", "Q"):
                        m = min(abs(v["PQ".index(nm)])
                                for _, v in net["boundary"][n["id"]])
                        n["theta_" + nm] = d.weighted([(2, 0.3), (1, 0.05), (1, 0.9)]) / dt
                        n["sigma_" + nm] = m * d.weighted([(2, 0.1), (1, 0.3), (1, 0.03)]) \
                            / math.sqrt(dt)
        return net

    def run(self, net, ctx):
        res = Res()
        sto = [n for n in net["nodes"] if n["type"] == "StochasticPQnode"]
        s = sim.Sim(ctx, net)
        if not sim.usable(s, res):
            return res
        seeds = {}
        for n in sto:
            sd = s.out.extra[n["id"]].get("seed")
            if not (isinstance(sd, list) and len(sd) == 8 and
                    all(isinstance(x, int) and 0 <= x < 2 ** 32 for x in sd)):
                res.bad("no-seed", "%s: seed %r recorded" % (n["id"], sd))
                return res
            seeds[n["id"]] = sd
            given = net["seeds"].get(n["id"])
            if given is not None and given != sd:
                res.bad("seed-changed", "%s: seed %r given, %r recorded" % (
                    n["id"], given, sd))
        free = [tuple(seeds[n["id"]]) for n in sto if n["id"] not in net["seeds"]]
        if len(set(free)) < len(free):
            res.bad("seed-shared", "nodes without a given seed share one: %r" % free)
        # the reported values
        T = net["sim"]["tolerance"]
        noisy = still = 0
        z2 = {}
        for k in range(s.out.steps()):
            sums = model.power_sums(net, s.out, k)
            t = s.out.times[k]
            for n in sto:
                i = n["id"]
                v = s.out.data[i][k]
                mean = interp(net["boundary"][i], t)
                for j, nm in ((0, "P"), (1, "Q")):
                    if not all(model.finite(v.get(x)) for x in (nm, nm + "_deviation")):
                        res.bad("nonfinite", "%s t=%r: %r" % (i, t, v))
                        return res
                    mag = sums[i][2]
                    if abs(v[nm] - sums[i][j]) > 3 * T + 1e-12 * mag:
                        res.bad("reported-power", "%s t=%r: %s=%r reported, voltages "
                                "imply %r" % (i, t, nm, v[nm], sums[i][j]))
                    if abs(v[nm + "_deviation"] - (v[nm] - mean[j])) > 1e-12 * (
                            1 + abs(mean[j]) + abs(v[nm])):
                        res.bad("deviation", "%s t=%r: %s deviation %r, is %r" % (
                            i, t, nm, v[nm + "_deviation"], v[nm] - mean[j]))
                    if k == 0:
                        continue
                    lim = n["cut_off_factor"] * abs(mean[j]) + 3 * T + 1e-12 * mag
                    if abs(v[nm] - mean[j]) > lim:
                        res.bad("cut-off", "%s t=%r: %s=%r is farther from the mean %r "
                                "than %r of it" % (i, t, nm, v[nm], mean[j],
                                                   n["cut_off_factor"]))
                    x, spread, sd = relax(n, nm, s.out.data[i][k - 1][nm], mean[j],
                                      t - s.out.times[k - 1])
                    if abs(v[nm] - x) > spread * (1 + 1e-9) + 5 * T + 1e-11 * mag:
                        res.bad("relaxation", "%s t=%r: %s=%r, the noiseless process "
                                "gives %r and the noise at most %r" % (
                                    i, t, nm, v[nm], x, spread))
                    if sd > 300 * T and n["cut_off_factor"] > 4:
                        z2.setdefault((i, nm), []).append((v[nm] - x) / sd)
                    if sd > 300 * T:
                        if abs(abs(v[nm] - mean[j]) - n["cut_off_factor"] * abs(mean[j])) \
                                > 10 * T:
                            noisy += 1
                            still += abs(v[nm] - x) <= 5 * T
                            res.label("noise inside the cut-off")
                        else:
                            res.label("at the cut-off")
                    else:
                        res.label("no volatility to speak of")
        for (i, nm), zs in z2.items():
            if len(zs) < 20:
                continue
            res.label("law of the noise over one run")
            lo, hi = chi2_range(len(zs))
            q = sum(z * z for z in zs)
            if not lo * 0.99 <= q <= hi * 1.01:
                res.bad("noise-size", "%s %s: %d increments have a mean square of %r "
                        "variances" % (i, nm, len(zs), q / len(zs)))
            if abs(sum(zs)) > 7.5 * math.sqrt(len(zs)) * 1.01:
                res.bad("noise-mean", "%s %s: %d increments have mean %r standard "
                        "deviations" % (i, nm, len(zs), sum(zs) / len(zs)))
        if noisy >= 6 and still == noisy:
            res.bad("no-noise", "%d loads with positive volatility moved without "
                    "noise" % noisy)
        if res.findings:
            return res
        # the same again with the recorded seeds
        net2 = dict(net, seeds=seeds)
        s2 = sim.Sim(ctx, net2)
        if s2.crash(res):
            return res
        if not s2.ok or s2.states != s.states:
            res.bad("not-reproduced", "with the recorded seeds %r: %s" % (
                seeds, s2.message() if not s2.ok else "other results"))
        res.nontrivial = s.out.steps() > 1 and any(
            n["sigma_P"] > 0 or n["sigma_Q"] > 0 for n in sto)
        return res


if __name__ == "__main__":
    main(C06())
