import math
import common  # noqa: F401
from vlib import Check, Res, main

FUN = ["lin", "sq", "cub", "sin", "exp", "log", "sqrt", "atan", "inv", "ramp"]


def g(n, x):
    try:
        if n == "lin":
            return x
        if n == "sq":
            return x * x
        if n == "cub":
            return x * x * x
        if n == "sin":
            return math.sin(x)
        if n == "exp":
            return math.exp(x)
        if n == "log":
            return math.log(x) if x > 0 else math.nan
        if n == "sqrt":
            return math.sqrt(x) if x >= 0 else math.nan
        if n == "atan":
            return math.atan(x)
        if n == "inv":
            return 1 / x if x else math.inf
        return x if x > 0 else 0.0
    except (OverflowError, ValueError):
        return math.inf


class C10(Check):
    id = "C10"
    drivers = ("basics",)
    rule = ("the start point is no solution; a system of at least two unknowns, or "
            "a non-linear one")
    assumptions = [
        "systems of 1-7 equations, linear, non-linear, singular, rank-deficient, "
        "with a wrong Jacobian, with undefined residuals; several solves in a row "
        "with one solver, with new and with re-used sparsity pattern",
        "the residual is recomputed in Python; 1e-9 relative slack"]
    quick_cases = 60000
    thorough_cases = 1500000

    def gen(self, d):
        n = d.int(1, 7)
        style = d.weighted([(4, "good"), (2, "nonlinear"), (2, "wild"),
                            (1, "singular"), (1, "zero")])
        pattern = [[i, i] for i in range(n)]
        for _ in range(d.int(0, 2 * n)):
            pattern.append([d.raw(n - 1), d.raw(n - 1)])
        solves = []
        prepare = d.bool(0.5)
        for k in range(d.int(1, 3)):
            terms = []
            for idx, (i, j) in enumerate(pattern):
                if style == "good":
                    f = d.weighted([(4, "lin"), (1, "atan"), (1, "sin")])
                    a = d.float(3, 6, 2) * d.choice([1, -1]) if idx < n \
                        else d.float(-1, 1, 2)
                    if idx < n:
                        f = "lin"
                elif style == "zero":
                    f, a = d.choice(FUN), 0.0
                else:
                    f = d.choice(FUN)
                    a = d.float(-3, 3, 2)
                    if style == "wild":
                        a *= d.choice([1.0, 1e6, 1e-6, 1e12])
                terms.append([i, j, f, a])
            c = [d.float(-5, 5, 2) for _ in range(n)]
            if style == "singular" and n > 1:
                # the last equation repeats the first one, consistently or not
                terms = [t for t in terms if t[0] != n - 1]
                terms += [[n - 1, j, f, 2 * a] for i, j, f, a in terms if i == 0]
                c[n - 1] = 2 * c[0] + d.weighted([(1, 0.0), (1, 1.0)])
            scale = d.weighted([(3, 1.0), (1, 10.0), (1, 1e3), (1, 0.01)])
            x0 = [scale * d.float(-2, 3, 2) for _ in range(n)]
            s = {"terms": terms, "c": c, "x0": x0, "full": d.bool(0.5),
                 "newjac": not prepare or d.bool(0.3) or style == "singular"}
            # as the time evolution does: the pattern is collected once before
            # the first step, and re-used from then on
            if prepare and k == 0:
                s["prepare"] = True
            s["t0"] = d.weighted([(2, 0.0), (1, d.float(-3, 3, 2)), (1, 1e5)])
            s["t1"] = s["t0"] + d.weighted([(1, 1.0), (1, 0.25), (1, 600.0)])
            s["last"] = [d.float(-2, 3, 2) for _ in range(n)]
            s["control"] = [d.float(-2, 3, 2) for _ in range(d.int(0, 2))]
            if d.bool(0.15):
                s["wrong"] = d.weighted([(1, 0.5), (1, 3.0), (1, -1.0), (1, 0.0)])
            k2 = d.raw(11)
            if k2 == 11:
                # the start point is the solution
                s["c"] = [-sum(a * g(f, x0[j]) for i, j, f, a in terms if i == r)
                          for r in range(n)]
                s["c"] = [v if math.isfinite(v) else 0.0 for v in s["c"]]
                s["start_solves"] = True
            elif k2 == 10:
                s["x0"][d.raw(n - 1)] = d.choice(["nan", "inf", "-inf"])
            elif k2 == 9:
                s["c"][d.raw(n - 1)] = d.choice(["nan", "inf", "-inf"])
            elif k2 == 8:
                s["x0"][d.raw(n - 1)] = d.choice([0.0, 1e200, -1e200, 1e-200])
            solves.append(s)
        return {"op": "newton", "solves": solves, "style": style,
                "tolerance": d.weighted([(6, 1e-8), (2, 1e-4), (1, 1e-12), (1, 0.0),
                                       (1, 1e-2), (1, 0.5), (1, 10.0)]),
                "max_iterations": d.weighted([(3, 50), (1, 1), (1, 0), (1, 3), (1, 500)])}

    def run(self, case, ctx):
        res = Res()
        a = ctx.driver("basics").call(case, timeout=60)
        if "error" in a:
            res.bad("refused", a["error"])
            return res
        tol, maxit = case["tolerance"], case["max_iterations"]
        for s, r in zip(case["solves"], a["r"]):
            n = len(s["c"])
            xs = [float(v) for v in r["x"]]
            f = [float(v) for v in s["c"]]
            mag = [abs(v) for v in f]
            for i, j, fn, c in s["terms"]:
                v = c * g(fn, xs[j])
                f[i] += v
                mag[i] += abs(v)
            norm = math.sqrt(sum(v * v for v in f)) if all(
                math.isfinite(v) and abs(v) < 1e150 for v in f) else math.inf
            big = max(mag) if mag and all(math.isfinite(m) for m in mag) else math.inf
            x0 = [float(v) for v in s["x0"]]
            res.label("success" if r["success"] else
                      "error" if r.get("thrown") else "failure")
            if r["success"]:
                if not all(math.isfinite(v) for v in f):
                    res.bad("false-success", "success reported, but the residual at "
                            "the returned point %r is no number: %r" % (xs, f))
                    return res
                if not (norm <= tol * (1 + 1e-9) + 1e-14 * big * n):
                    res.bad("false-success", "success reported, but the residual at "
                            "the returned point is %r (tolerance %r): %r" % (norm, tol, xs))
                    return res
                if abs(float(r["residual"]) - norm) > 1e-9 * norm + 1e-14 * big * n:
                    res.bad("residual", "residual %r reported, it is %r" % (
                        r["residual"], norm))
                    return res
                if r["iterations"] > maxit:
                    res.bad("iterations", "%d iterations, %d allowed" % (
                        r["iterations"], maxit))
                    return res
            if not r.get("thrown") and r["iterations"] > maxit:
                res.bad("iterations", "%d iterations, %d allowed" % (
                    r["iterations"], maxit))
                return res
            f0 = [float(v) for v in s["c"]]
            for i, j, fn, c in s["terms"]:
                f0[i] += c * g(fn, x0[j])
            fin = all(math.isfinite(v) and abs(v) < 1e150 for v in f0)
            n0 = math.sqrt(sum(v * v for v in f0)) if fin else math.inf
            if n0 < tol * 0.999:
                res.label("start point solves")
                if not r["success"] or repr(xs) != repr(x0):
                    res.bad("start-changed", "start point solves already (residual %r),"
                            " but: %r" % (n0, r))
                    return res
            elif n0 > tol * 1.001 and (n > 1 or case["style"] != "good"):
                res.nontrivial = True
            # a regular linear system, or one close to it, must be solved:
            # otherwise "always fails" would pass
            if (case["style"] == "good" and "wrong" not in s and fin
                    and all(t[2] == "lin" for t in s["terms"])
                    and max(map(abs, x0)) < 1e4 and self.dominant(s, n)
                    and tol >= 1e-8 and maxit >= 1):
                res.label("must be solved")
                if not r["success"]:
                    res.bad("not-solved", "regular linear system not solved: %r" % r)
                    return res
        return res

    @staticmethod
    def dominant(s, n):
        d = [0.0] * n
        o = [0.0] * n
        tot = {}
        for i, j, f, a in s["terms"]:
            tot[i, j] = tot.get((i, j), 0.0) + a
        for (i, j), a in tot.items():
            if i == j:
                d[i] += a
            else:
                o[i] += abs(a)
        return all(abs(d[i]) > o[i] + 0.5 for i in range(n))


if __name__ == "__main__":
    main(C10())
