import common  # noqa: F401
import C20
import whole
from netgen import interp
from vlib import Res, main


def grid(d, a, b, times):
    """Times of the data of a bound, from a to b, independent of the times at
    which it is needed, or the same, or nearly the same."""
    kind = d.weighted([(2, "own"), (2, "same"), (1, "ends"), (2, "mixed")])
    if a == b:
        return [a]
    if kind == "same":
        g = set(times) | {a, b}
    elif kind == "ends":
        g = {a, b}
    else:
        g = {a, b} | {a + (b - a) * d.float(0, 1, 3) for _ in range(d.int(1, 5))}
        if kind == "mixed":
            g |= set(d.sample(times, d.int(1, len(times))))
    g = sorted(g)
    return [t for i, t in enumerate(g) if i == 0 or t - g[i - 1] > 1e-6 or t == b]


class C30(C20.C20):
    id = "C30"
    rule = ("at least two controls per time or two constraints per time, bounds given "
            "at other times than they are needed, and at least two different "
            "trajectories in the history")
    assumptions = [
        "the calls are those Ipopt makes: x is one buffer whose contents change, and "
        "new_x is true whenever they differ from those of the previous call",
        "bounds cover the times at which they are needed; their data points are at "
        "least 1e-6 apart",
        "values agree up to 1e-6 relative (1e-5 for networks), bounds up to 1e-9"]
    quick_cases = 12000
    thorough_cases = 300000

    def gen(self, d):
        q = super().gen(d)
        q["op"] = "interface"
        q["via"] = "wrapper"
        for h in q["history"]:
            if h[1] in ("cost", "penalty", "states"):
                h[1] = d.choice(("objective", "gradient", "constraints", "jacobian"))
        c = q["c"]
        k = len(q.get("constraints") or [])
        if q["kind"] == "net":
            nodes = q["net"]["topology_json"]["nodes"]
            k += len(nodes.get("ConstraintSink", []))
            k += sum(len(e["constraints"]) for e in q["extras"])
        ct, gt = q["control_times"], q["constraint_times"]
        a, b = ct[0], ct[-1]
        if d.bool(0.3):
            a -= d.float(0.1, 3, 1)
        if d.bool(0.3):
            b += d.float(0.1, 3, 1)
        cg = grid(d, a, b, ct)
        a, b = gt[0], gt[-1]
        if d.bool(0.3) or a == b:
            a -= d.float(0.1, 3, 1)
        if d.bool(0.3):
            b += d.float(0.1, 3, 1)
        gg = grid(d, a, b, gt)

        def values(w, g, mid, spread):
            if d.bool(0.3):
                v = [round(mid + d.float(-spread, spread, 2), 3) for _ in range(w)]
                return [list(v) for _ in g]
            return [[round(mid + d.float(-spread, spread, 2), 3) for _ in range(w)]
                    for _ in g]
        wide = d.weighted([(2, 1), (1, 3)])   # 3: starts outside, bounds that cross
        q["bounds"] = {
            "control_grid": cg, "constraint_grid": gg,
            "initial": values(c, cg, 0, 30 * wide), "lower": values(c, cg, -50, 20 * wide),
            "upper": values(c, cg, 50, 20 * wide),
            "constraint_lower": values(k, gg, -50, 40 * wide),
            "constraint_upper": values(k, gg, 50, 40 * wide)}
        n = len(q["xs"])
        q["final"] = {"before": d.int(-1, n - 1), "x": d.raw(n - 1),
                      "what": d.choice(("objective", "gradient", "constraints")),
                      "objective": d.float(-100, 100, 2), "success": d.bool(0.6)}
        return q

    def describe(self, q):
        r = super().describe(q)
        r["bounds"] = q["bounds"]
        r["final"] = q["final"]
        return r

    def run(self, q, ctx):
        res = Res()
        a = ctx.driver("optim").call(q)
        if "error" in a or "skip" in a:
            res.skip = "refused"
            res.label("refused: " + str(a)[:60])
            return res
        c, ct, gt, b = q["c"], q["control_times"], q["constraint_times"], q["bounds"]
        k = len(b["constraint_lower"][0])
        n, m, nnz, style = a["info"]
        if not a["info_ok"] or [n, m] != [c * len(ct), k * len(gt)] or not style:
            res.bad("size", "%s for %d controls at %d and %d constraints at %d times"
                    % (a["info"], c, len(ct), k, len(gt)))
            return res
        if not (a["bounds_ok"] and a["start_ok"] and a["structure_ok"]):
            res.bad("refused", "the problem is not handed out")
            return res
        if a["outside"] or any(h.get("outside") for h in a["history"]):
            res.bad("outside", "memory around the results was written")
            return res
        for name, what, g, times in (
                ("start", "initial", "control_grid", ct),
                ("lower", "lower", "control_grid", ct),
                ("upper", "upper", "control_grid", ct),
                ("constraint_lower", "constraint_lower", "constraint_grid", gt),
                ("constraint_upper", "constraint_upper", "constraint_grid", gt)):
            pts = [[t, v] for t, v in zip(b[g], b[what])]
            want = [v for t in times for v in interp(pts, t)]
            if len(want) != len(a[name]) or any(
                    not isinstance(y, (int, float)) or
                    abs(y - z) > 1e-6 * max(1.0, abs(z))
                    for y, z in zip(a[name], want)):
                res.bad(name, "%s, from the data %s" % (a[name], want))
                return res
        # where the derivatives may be: all pairs that can depend on each other,
        # each once
        pos = list(zip(a["rows"], a["cols"]))
        if len(set(pos)) != len(pos) or any(
                not (0 <= i < m and 0 <= j < n) for i, j in pos):
            res.bad("structure", "positions %s" % pos)
            return res
        have = set(pos)
        for i, tg in enumerate(gt):
            for j in range(len(ct)):
                # the control at tg or at an earlier state time depends on the
                # values at ct[j] if ct[j-1] < some state time <= tg
                if j == 0 or ct[j - 1] < tg:
                    # not demanded where no state time lies in the reach
                    lo = ct[j - 1] if j else -1e300
                    hi = ct[j + 1] if j + 1 < len(ct) else 1e300
                    if not any(lo < s < hi and s <= tg for s in q["state_times"][1:]):
                        continue
                    for e in range(k * c):
                        if (i * k + e // c, j * c + e % c) not in have:
                            res.bad("structure", "no place for the derivative of "
                                    "constraint time %d by control time %d" % (i, j))
                            return res
        base = self.judge_history(q, a, res)
        if not base:
            return res
        f, best = q["final"], a["best"]
        if not best["x"] or not best["constraints"] or \
                best["objective"] != f["objective"]:
            res.bad("best", "result handed over is not the one kept: %s" % best)
            return res
        if a["final_ok"]:
            rel = 1e-6 if q["kind"] == "synthetic" else 1e-5
            for y, z, w in zip((best["cost"], best["penalty"]), a["final"],
                               ("cost", "penalty")):
                if y != z and (isinstance(y, str) or isinstance(z, str) or
                               abs(y - z) > rel * max(1e-3, abs(z))):
                    res.bad("best " + w, "%s kept with the result is %r, alone: %r"
                            % (w, y, z))
                    return res
        res.label(q["kind"])
        if not a["final_ok"]:
            res.label("result cannot be simulated")
        res.label("before the end: %s" % (f["what"] if f["before"] >= 0 and
                                          f["before"] != f["x"] else "nothing else"))
        other = b["control_grid"] != ct and b["constraint_grid"] != gt
        res.nontrivial = (c > 1 or k > 1) and other and \
            len({h[0] for h in q["history"]}) >= 2
        return res


if __name__ == "__main__":
    main(C30())
