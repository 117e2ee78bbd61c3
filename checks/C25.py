import math
import common  # noqa: F401
from vlib import Check, Res, main


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def mass(lo, hi, m, s):
    """Probability of [lo, hi] under the normal distribution."""
    a, b = (lo - m) / s, (hi - m) / s
    if a > 0:
        return 0.5 * (math.erfc(a / math.sqrt(2)) - math.erfc(b / math.sqrt(2)))
    return phi(b) - phi(a)


class C25(Check):
    id = "C25"
    drivers = ("basics",)
    rule = ("at least 500 samples compared with their distribution, or 60 seeds of the "
            "load process run, or its cut-off touched")
    assumptions = [
        "distribution judged by Kolmogorov-Smirnov, mean, variance and correlation of "
        "successive values at levels below 1e-9; intervals of less than 1e-3 "
        "probability may be refused with an error",
        "the load process is judged against the exact law of its Euler-Maruyama "
        "recursion where the cut-off is out of reach; with zero mean the process has "
        "no cut-off"]
    quick_cases = 16000
    thorough_cases = 200000

    def gen(self, d):
        seed = [d.raw(2 ** 32 - 1) for _ in range(8)]
        if d.bool(0.15):
            seed = [0] * 7 + [d.raw(1)]
        kind = d.weighted([(5, "trunc"), (1, "normal"), (4, "oup")])
        if kind != "oup":
            m = d.weighted([(2, 0.0), (1, 3.5), (1, -100.0), (1, 1e-3)])
            s = d.weighted([(3, 1.0), (1, 1e-3), (1, 50.0), (1, 1e-9)])
            c = {"op": "samples", "kind": kind, "dist": kind, "seed": seed, "mean": m,
                 "sigma": s, "n": d.weighted([(6, 1000), (2, 4000), (2, 1), (1, 20000)])}
            if kind == "normal":
                c["form"] = d.choice(["full", "short"])
            else:
                c["form"] = d.weighted([(4, "full"), (1, "default"), (2, "centred"),
                                        (1, "short")])
                w = d.weighted([(3, "wide"), (2, "left"), (2, "right"), (2, "narrow"),
                                (1, "tail"), (1, "impossible"), (1, "point")])
                a = d.float(-2.5, 2.5)
                lo, hi = a, a + d.float(0.05, 3)
                if w == "left":
                    lo = "-inf"
                elif w == "right":
                    hi = "inf"
                elif w == "narrow":
                    lo = d.float(-1.5, 1.5)
                    hi = lo + d.weighted([(2, 0.02), (1, 1e-3)])
                elif w == "tail":
                    lo = d.weighted([(1, 3.3), (2, d.float(2.0, 3.6))])
                    hi = d.weighted([(1, "inf"), (1, lo + 1.7),
                                     (2, lo + d.float(0.1, 1.0))])
                    if d.bool(0.5):
                        lo, hi = "-inf" if hi == "inf" else -hi, -lo
                elif w == "impossible":
                    lo, hi = 40.0, 41.0
                elif w == "point":
                    hi = lo
                mm = m if c["form"] == "full" else 0.0
                c["lo"] = lo if isinstance(lo, str) else mm + lo * s
                c["hi"] = hi if isinstance(hi, str) else mm + hi * s
                c["w"] = w
                if w in ("narrow", "tail", "impossible", "point"):
                    c["n"] = min(c["n"], 1000 if w == "narrow" else
                                 d.weighted([(3, 1), (2, 500), (1, 2000)])
                                 if w == "tail" else 1)
            return c
        mu = d.weighted([(3, 10.0), (2, -4.0), (1, 0.0), (1, 0.3)])
        sigma = d.weighted([(3, 0.5), (1, 0.0), (1, 3.0), (1, 0.01)])
        return {"op": "oup", "kind": kind, "mu": mu, "sigma": sigma,
                "x0": mu + d.weighted([(2, 0.0), (2, 1.0)]) * d.float(-0.3, 0.3) * (
                    abs(mu) or 1.0),
                "theta": d.weighted([(2, 0.5), (1, 0.0), (1, 4.0), (1, 0.02)]),
                "dt": d.weighted([(2, 1.0), (1, 0.1), (1, 10.0)]),
                "steps": d.weighted([(2, 10), (1, 1), (1, 50)]),
                "stability": d.weighted([(2, 1.0), (1, 0.3), (1, 1.9)]),
                "cut": d.weighted([(2, 1e6), (2, 0.3), (1, 0.02)]),
                "outer": d.int(1, 3), "seeds": [seed] + [
                    [d.raw(2 ** 32 - 1) for _ in range(8)]
                    for _ in range(d.weighted([(1, 3), (2, 150)]))]}

    def run(self, c, ctx):
        res = Res()
        drv = ctx.driver("basics")
        res.label(c["kind"])
        r = drv.call(c)
        if "error" in r:
            res.bad("refused", r["error"])
            return res
        if c["kind"] == "oup":
            return self.oup(c, r, res, drv)
        if r["used"] != c["seed"]:
            res.bad("seed", "seed %r given, %r reported as used" % (c["seed"], r["used"]))
        if c["n"] <= 1000 and drv.call(c) != r:
            res.bad("not-reproducible", "the same seed gives other samples")
        m, s = c["mean"], c["sigma"]
        if c["form"] in ("short", "centred"):
            m = 0.0
        lo, hi = -math.inf, math.inf
        if c["kind"] == "trunc":
            lo, hi = float(c["lo"]), float(c["hi"])
            if c["form"] in ("default", "short"):
                lo, hi = m - 2 * s, m + 2 * s
            else:
                res.label("interval " + c["w"])
        pr = mass(lo, hi, m, s) if hi > lo else 0.0
        xs = r["x"]
        for x in xs:
            if isinstance(x, str) or not lo <= x <= hi:
                res.bad("outside", "sample %r outside [%r, %r]" % (x, lo, hi))
                return res
        if r.get("refused"):
            res.label("refused")
            if pr > 1e-3:
                res.bad("refused", "no sample found in an interval of probability %g"
                        % pr)
            return res
        if len(xs) != c["n"]:
            res.bad("number", "%d samples instead of %d" % (len(xs), c["n"]))
            return res
        n = len(xs)
        if n < 500 or pr <= 1e-12:
            return res
        res.nontrivial = True

        def cdf(x):
            return min(1.0, max(0.0, mass(lo, x, m, s) / pr)) if x > lo else 0.0
        D = 0.0
        us = []
        for i, x in enumerate(sorted(xs)):
            u = cdf(x)
            D = max(D, abs(u - i / n), abs(u - (i + 1) / n))
        if D * math.sqrt(n) > 3.5:
            res.bad("distribution", "mean %r, deviation %r, interval [%r, %r]: the "
                    "samples' distribution is off by %.3f" % (m, s, lo, hi, D))
        us = [cdf(x) - 0.5 for x in xs]
        corr = 12 * sum(a * b for a, b in zip(us, us[1:])) / (n - 1)
        if abs(corr) * math.sqrt(n) > 7:
            res.bad("correlated", "successive samples are correlated (%.3f)" % corr)
        if len(set(xs)) < 0.98 * n and min(hi - lo, s) > 1e-8 * abs(m):
            res.bad("repeats", "only %d different values in %d samples" % (
                len(set(xs)), n))
        return res

    def oup(self, c, r, res, drv):
        mu, th, sg, dt = c["mu"], c["theta"], c["sigma"], c["dt"]
        n = r["steps"]
        h = dt / n
        if n < c["steps"] or th * h >= c["stability"]:
            res.bad("steps", "%d steps of theta*h=%r, stability parameter %r" % (
                n, th * h, c["stability"]))
            return res
        # the number of steps the process actually used is not observable; the
        # law below is that for n steps
        cut = c["cut"]
        lo, hi = sorted([(1 - cut) * mu, (1 + cut) * mu])
        touched = False
        for p in r["paths"]:
            for x in p:
                if isinstance(x, str):
                    res.bad("nan", "process value %r" % x)
                    return res
                if mu != 0 and not lo - 1e-12 * abs(lo) <= x <= hi + 1e-12 * abs(hi):
                    res.bad("cut-off", "process value %r outside [%r, %r]" % (x, lo, hi))
                    return res
                touched = touched or (mu != 0 and (x == lo or x == hi))
        if touched:
            res.label("cut-off touched")
            res.nontrivial = True
        if len(r["paths"]) < 10 and drv.call(c) != r:
            res.bad("not-reproducible", "the same seeds give another path")
        total = n * c["outer"]
        f = 1 - th * h
        mean = mu + (c["x0"] - mu) * f ** total
        var = sg * sg * h * sum(f ** (2 * i) for i in range(total))
        if sg == 0:
            res.label("no volatility")
            # inside the bounds from the start, so never cut
            if mu == 0 or lo <= c["x0"] <= hi:
                res.nontrivial = True
                for p in r["paths"]:
                    osc = abs(f) > 1
                    if not osc and f >= 0 and abs(p[-1] - mean) > 1e-9 * (
                            abs(mu) + abs(c["x0"])):
                        res.bad("relaxation", "without volatility %r, expected %r" % (
                            p[-1], mean))
                        return res
            return res
        reach = mu == 0 or cut > 1e5
        N = len(r["paths"])
        if N < 60:
            return res
        if not reach:
            return res
        res.nontrivial = True
        xs = [p[-1] for p in r["paths"]]
        sd = math.sqrt(var)
        z = (sum(xs) / N - mean) / (sd / math.sqrt(N))
        if abs(z) > 7:
            res.bad("mean", "mean over %d seeds %r, expected %r +- %r" % (
                N, sum(xs) / N, mean, sd / math.sqrt(N)))
        v = sum((x - mean) ** 2 for x in xs) / var
        w = ((v / N) ** (1 / 3) - (1 - 2 / (9 * N))) / math.sqrt(2 / (9 * N))
        if abs(w) > 7:
            res.bad("spread", "variance over %d seeds %r, expected %r" % (
                N, v / N * var, var))
        return res


if __name__ == "__main__":
    main(C25())
