import common  # noqa: F401
import whole
from vlib import Check, Res, main


class C19(Check):
    id = "C19"
    drivers = ("optim",)
    rule = ("at least two state steps and two control values, and at least two "
            "entries of gradient and Jacobian together that are not zero")
    assumptions = [
        "the true derivative is computed twice: by carrying the sensitivities of the "
        "states forward in time with dense linear algebra (exact up to rounding, "
        "uses the model's own derivatives, which C17 checks), and as difference "
        "quotients of the returned values along random directions",
        "problems: random smooth implicit systems with random costs, penalties and "
        "constraints, and generated gas networks (with power coupling, constraint "
        "sinks and added cost terms); control, constraint and state times need not "
        "coincide, except that constraint times are state times",
        "a trajectory whose simulation fails is skipped"]
    quick_cases = 20000
    thorough_cases = 400000

    def gen(self, d):
        q = whole.session(d)
        q["op"] = "sensitivities"
        wide = 1.0 if q["kind"] == "synthetic" else d.weighted([(3, 0.5), (1, 0.0)])
        q["x"] = whole.trajectory(d, q, wide)
        q["jacobian_first"] = d.bool(0.3)
        q["directions"] = [[d.float(-1, 1, 2) for _ in range(q["x_size"])]
                           for _ in range(d.weighted([(2, 1), (1, 2), (1, 0)]))]
        q["h"] = 1e-3 if q["kind"] == "synthetic" else 1e-2
        return q

    def describe(self, q):
        return {k: q.get(k) for k in ("kind", "parts", "state_times",
                                      "control_times", "constraint_times", "x",
                                      "sinks")}

    def run(self, q, ctx):
        res = Res()
        a = ctx.driver("optim").call(q)
        if "error" in a or "skip" in a:
            res.skip = "refused"
            res.label("refused: " + str(a)[:60])
            return res
        if a.get("failed"):
            res.skip = "simulation failed"
            return res
        for k in ("cost_ok", "pen_ok", "g_ok", "grad_ok", "jac_ok"):
            if a[k] is not True:
                res.bad("not-evaluated", "%s is %r after the objective was computed"
                        % (k, a[k]))
                return res
        if not a["indices_ok"]:
            res.bad("indices", "entries outside the matrix or named twice")
            return res
        mag = a["mag"]
        if not isinstance(mag, (int, float)) or mag > 1e12:
            res.skip = "huge sensitivities"
            return res
        shown = 0
        rel = 1e-7 if q["kind"] == "synthetic" else 1e-6
        scale = {}
        for k in ("gradient", "jacobian"):
            if k not in a:
                continue
            c = a[k]
            s = max(mag, c["scale"] if isinstance(c["scale"], (int, float)) else 0)
            scale[k] = s
            shown += c["visible"]
            if c["worst"] in ("inf", "nan") or c["worst"] > rel * s + 1e-9:
                res.bad(k, "entry (%s,%s) is %r, not %r (scale %r)" % (
                    c["row"], c["col"], c["given"], c["true"], s))
        if a.get("outside"):
            res.bad("pattern", "%d derivatives that are not zero are not in the "
                    "pattern" % a["outside"])
        for v in a["directions"]:
            for i, (g, t, e) in enumerate(zip(v["given"], v["true"], v["err"])):
                if any(not isinstance(z, (int, float)) for z in (g, t, e)):
                    continue
                s = scale.get("gradient" if i == 0 else "jacobian", 0.0)
                if abs(g - t) > 10 * e + 1e-3 * max(abs(g), abs(t)) + 1e-4 * s + 1e-9:
                    res.bad("direction", "%s: derivative along a direction %r, "
                            "difference quotient %r (+- %r)" % (
                                "objective" if i == 0 else "constraint %d" % (i - 1),
                                g, t, e))
                    break
        res.nontrivial = (len(q["state_times"]) > 2 and a["nx"] >= 2 and shown >= 2)
        res.label(q["kind"])
        if q.get("sinks"):
            res.label("constraint sinks")
        if a["ng"]:
            res.label("constraints")
        return res


if __name__ == "__main__":
    main(C19())
