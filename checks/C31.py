import os
import sys
try:
    import numpy as np
    from scipy.optimize import nnls
except ImportError:     # only the venv of the verification tools has them
    if os.environ.get("VERIF_VENV"):
        raise
    os.environ["VERIF_VENV"] = "1"
    os.execvp("python3-vt", ["python3-vt"] + sys.argv)
import common  # noqa: F401
import whole
from vlib import Check, Res, main

SUCCESS = (0, 1)
INFEASIBLE = 2


class C31(Check):
    id = "C31"
    drivers = ("optim",)
    rule = ("at least three control values, and at the result a bound or a constraint "
            "is active")
    assumptions = [
        "dynamics linear in states and controls, costs convex and quadratic, "
        "constraints linear: every local optimum is an optimum, and the conditions of "
        "Karush, Kuhn and Tucker decide",
        "a strictly feasible trajectory exists by construction",
        "optimal means: the gradient is a non-negative combination of the outward "
        "normals of bounds and constraints, multipliers times a hundred distances to "
        "them are zero, both up to 3e-4 of its size; feasible means up to 1e-5, relative for bounds above 1",
        "an optimisation that ends without success and does not call the problem "
        "infeasible (iteration limit) is not judged, only counted"]
    quick_cases = 8000
    thorough_cases = 200000

    def gen(self, d):
        n, c = d.int(1, 4), d.int(1, 3)
        eqs = []
        for i in range(n):
            ts = [[-d.float(0, 1, 2), "n", i, 0], [d.float(-1, 1, 2), "u", d.raw(c - 1), 0]]
            for _ in range(d.int(0, 4)):
                k = d.choice(("u", "n", "l", "1", "t"))
                ts.append([round(d.float(-1, 1, 2), 2), k,
                           d.raw((c if k == "u" else n) - 1), 0])
            eqs.append(ts)
        q = {"op": "optimum", "kind": "synthetic",
             "equations": eqs, "controls": c, "c": c,
             "initial": [d.float(-1, 1, 2) for _ in range(n)],
             "solver": {"tolerance": 1e-9, "maximal_number_of_newton_iterations": 60,
                        "retries": d.int(0, 2), "use_simplified_newton": d.bool(0.5)}}
        st = whole.state_times(d, d.weighted([(3, 0.0), (1, -2.0)]),
                               d.weighted([(3, 0.25), (1, 0.1), (1, 0.5)]), 6)

        def quadratic():
            ts = []
            for i in range(n):
                if d.bool(0.7):
                    w, ref = d.float(0.1, 2, 2), d.float(-2, 2, 2)
                    ts += [[w, "nn", i, i], [-2 * w * ref, "n", i, 0]]
            for j in range(c):
                if d.bool(0.6):
                    w, ref = d.float(0.1, 2, 2), d.float(-2, 2, 2)
                    ts += [[w, "uu", j, j], [-2 * w * ref, "u", j, 0]]
            if d.bool(0.2):
                ts.append([d.float(-2, 2, 2), "t", 0, 0])
            return ts
        q["cost"] = quadratic() or [[1.0, "uu", 0, 0]]
        q["penalty"] = quadratic() if d.bool(0.4) else []
        k = d.weighted([(2, 0), (3, 1), (2, 2)])
        q["constraints"] = []
        for _ in range(k):
            q["constraints"].append([[round(d.float(-2, 2, 2), 2), z, d.raw(
                (n if z == "n" else c) - 1), 0] for z in d.sample(
                    ["n", "u", "n"], d.int(1, 3))])
        ct, gt = whole.time_grids(d, st)
        q.update(state_times=st, control_times=ct, constraint_times=gt)
        nx, ng = c * len(ct), k * len(gt)

        def each(count, f):
            return [f() for _ in range(count)]
        tight = d.float(0.05, 3, 2)
        q["witness"] = each(nx, lambda: d.float(-1, 1, 2))
        q["below"] = each(nx, lambda: d.float(0.05, 1, 2) * tight)
        q["above"] = each(nx, lambda: d.float(0.05, 1, 2) * tight)
        q["margins"] = each(ng, lambda: [
            d.weighted([(3, d.float(0.02, 0.5, 2)), (1, 100.0)]),
            d.weighted([(3, d.float(0.02, 0.5, 2)), (1, 100.0)])])
        kind = d.weighted([(2, "witness"), (3, "off"), (1, "far")])
        q["start"] = each(nx, lambda: {"witness": 0.0, "off": d.float(-1, 1, 2),
                                       "far": d.float(-20, 20, 1)}[kind])
        q["h"] = 0.5
        return q

    def describe(self, q):
        return {k: q[k] for k in ("equations", "cost", "penalty", "constraints",
                                  "state_times", "control_times",
                                  "constraint_times", "witness", "below", "above",
                                  "margins", "start")}

    def run(self, q, ctx):
        res = Res()
        a = ctx.driver("optim").call(q)
        if "error" in a or "skip" in a:
            res.skip = "refused"
            res.label("refused: " + str(a)[:60])
            return res
        s = a["status"]
        if s == INFEASIBLE:
            res.bad("infeasible", "a problem with the strictly feasible trajectory %s "
                    "is called infeasible" % q["witness"])
            return res
        if s not in SUCCESS:
            res.label("status %d" % s)
            return res
        if not a["ok"]:
            res.bad("result", "the result %s cannot be simulated" % a["x"])
            return res
        x, g = np.array(a["x"], float), np.array(a["constraints"], float)
        lo, up = np.array(a["lower"], float), np.array(a["upper"], float)
        gl = np.array(a["constraint_lower"], float)
        gu = np.array(a["constraint_upper"], float)
        grad = np.array(a["gradient"], float)
        jac = np.array(a["jacobian"], float).reshape(len(g), len(x))
        for v, l, u, what in ((x, lo, up, "control value"), (g, gl, gu, "constraint")):
            for i in range(len(v)):
                eps = 1e-5 * max(1.0, abs(l[i]), abs(u[i]))
                if not l[i] - eps <= v[i] <= u[i] + eps:
                    res.bad("violated", "%s %d of the result is %r, bounds %r and %r"
                            % (what, i, v[i], l[i], u[i]))
                    return res
        kept, (cost, pen) = a["kept"], a["evaluated"]
        for y, z, w in zip(kept, (cost + pen, cost, pen), ("objective", "cost",
                                                           "penalty")):
            if abs(y - z) > 1e-6 * max(1.0, abs(z)):
                res.bad("value", "%s of the result is %r, reported %r" % (w, z, y))
                return res
        if a["kept"][0] > a["witness_objective"] + 1e-4 * (
                1 + abs(a["witness_objective"])):
            res.bad("worse", "objective of the result %r, of the feasible trajectory "
                    "%s %r" % (kept[0], q["witness"], a["witness_objective"]))
            return res
        # grad + sum of multipliers times outward normals = 0, multipliers times
        # distances = 0
        cols, dist = [], []
        for i in range(len(x)):
            e = np.zeros(len(x))
            e[i] = 1
            cols += [-e, e]
            dist += [x[i] - lo[i], up[i] - x[i]]
        for i in range(len(g)):
            cols += [-jac[i], jac[i]]
            dist += [g[i] - gl[i], gu[i] - g[i]]
        dist = np.maximum(0, np.array(dist))
        _, rest = nnls(np.vstack([np.array(cols).T, np.diag(100 * dist)]),
                       np.concatenate([-grad, np.zeros(len(dist))]))
        active = int(sum(dist < 1e-4))
        limit = 3e-4 * max(1.0, float(np.linalg.norm(grad)))
        if rest > limit:
            res.bad("not optimal", "gradient %s, active normals %d, what remains of the "
                    "gradient %r" % (a["gradient"], active, rest))
            return res
        res.label("optimum")
        if active:
            res.label("with active bounds or constraints")
        res.nontrivial = len(x) >= 3 and active > 0
        return res


if __name__ == "__main__":
    main(C31())
