import common  # noqa: F401
import math
import whole
from vlib import Check, Res, main

Q = ("objective", "cost", "penalty", "gradient", "constraints", "jacobian", "states")


class C20(Check):
    id = "C20"
    drivers = ("optim",)
    rule = ("at least two different trajectories, at least three evaluations after "
            "the first change of the trajectory, one of them of a derivative; of requests to the cache: at least three different ones")
    assumptions = [
        "the optimiser announces a new trajectory (new_x) whenever the trajectory "
        "differs from the previous evaluation's, as Ipopt does, and sometimes also "
        "when it does not",
        "'the same' is up to 1e-6 relative (1e-5 for networks), because the solver "
        "may start from earlier states; exact agreement is not demanded",
        "failing simulations are injected by equations that throw, are undefined or "
        "cannot be solved for some controls"]
    quick_cases = 20000
    thorough_cases = 400000

    def gen(self, d):
        q = whole.session(d, net_share=0.3, hi=4)
        q["op"] = "history"
        wide = 1.0 if q["kind"] == "synthetic" else 0.5
        nx = d.int(2, 4)
        xs = [whole.trajectory(d, q, wide) for _ in range(nx)]
        if d.bool(0.4):   # differ in one entry only
            xs[1] = list(xs[0])
            i = d.raw(len(xs[1]) - 1)
            xs[1][i] = round(xs[1][i] + wide * d.float(-1, 1, 2), 4)
        q["fail"] = []
        if self.id == "C20" and q["kind"] == "synthetic" and d.bool(0.12):
            # zero is a trajectory with states but without derivatives
            q["initial"] = [0.0] * len(q["initial"])
            q["equations"] = [[t for t in e if t[1] != "t"] for e in q["equations"]]
            q["product"] = [d.raw(len(q["equations"]) - 1), d.raw(q["c"] - 1)]
            xs[0] = [0.0] * len(xs[0])
            for x in xs[1:]:
                x[:] = [z or 0.5 for z in x]
        if d.bool(0.6):
            q["fail_above"] = 50.0
            q["fail_how"] = d.weighted([(2, "throw"), (2, "nan"), (2, "unsolvable")])
            for i in range(nx):
                if d.bool(0.4):
                    for j in range(len(xs[i])):
                        if d.bool(0.6):
                            xs[i][j] = 90.0
                    j = d.raw(len(q["control_times"]) - 2) + 1 if len(
                        q["control_times"]) > 1 else 0
                    xs[i][j * q["c"]:] = [90.0] * (len(xs[i]) - j * q["c"])
                    q["fail"].append(i)
        if self.id == "C20" and d.bool(0.12):
            return self.gen_cache(d, q, xs)
        hist = []
        last = None
        for _ in range(d.int(3, 14)):
            if last is None or d.bool(0.5):
                i = d.raw(nx - 1)
            else:
                i = last
            hist.append([i, d.choice(Q), i != last or d.bool(0.1)])
            last = i
        q["xs"], q["history"] = xs, hist
        q["via"] = d.weighted([(2, ""), (1, "wrapper")])
        return q

    def gen_cache(self, d, q, xs):
        """Requests to the cache of states: also other time grids (of the same
        length, too) and other initial states."""
        q["op"] = "cache"
        st = q["state_times"]
        grids = [st]
        for _ in range(d.int(1, 2)):
            k = d.weighted([(2, "inner"), (1, "fewer"), (1, "last")])
            g = list(st)
            if k == "fewer" and len(g) > 2:
                del g[d.int(1, len(g) - 2)]
            elif k == "last" and len(g) > 2:
                g[-1] = (g[-1] + g[-2]) / 2
            elif len(g) > 2:
                i = d.int(1, len(g) - 2)
                g[i] = (g[i] + g[i + 1]) / 2
            else:
                g[-1] = (g[0] + g[-1]) / 2
            grids.append(g)
        q["grids"] = grids
        q["shifts"] = [0.0, d.choice((0.01, 0.05))]
        hist, now = [], [0, 0, 0]
        for _ in range(d.int(3, 10)):
            if hist and d.bool(0.75):
                k = d.raw(2)
                now[k] = d.raw((len(xs), len(grids), 2)[k] - 1)
            hist.append(now + [d.weighted([(3, "check"), (1, "refresh")])])
        q["xs"], q["history"], q["via"] = xs, hist, "the cache of states"
        return q

    def run_cache(self, q, a, res):
        rel = 1e-6 if q["kind"] == "synthetic" else 1e-5
        kinds = {tuple(h[:3]) for h in q["history"]}
        for k, (h, got, want) in enumerate(zip(q["history"], a["history"],
                                               a["fresh"])):
            if got["ok"] != want["ok"]:
                res.bad("cache success", "request %d (%s): %s, alone: %s"
                        % (k, h, got["ok"], want["ok"]))
                return res
            if not got["ok"]:
                res.label("failed evaluation")
                continue
            w = want["v"]
            scale = max([abs(z) for z in w if isinstance(z, (int, float))] or [0])
            if len(got["v"]) != len(w) or not got["times"] or any(
                    y != z and (isinstance(y, str) or isinstance(z, str) or
                                abs(y - z) > rel * max(scale, 1e-3))
                    for y, z in zip(got["v"], w)):
                res.bad("cache", "request %d (trajectory, times, start: %s): %s, "
                        "alone: %s" % (k, h, got["v"], w))
                return res
        res.label("requests to the cache")
        res.nontrivial = len(kinds) >= 3
        return res

    def describe(self, q):
        return {k: q.get(k) for k in ("kind", "parts", "state_times",
                                      "control_times", "constraint_times", "xs",
                                      "history", "fail_above", "fail_how",
                                      "via", "grids", "shifts")}

    def judge_history(self, q, a, res):
        """None, and a failure in res, if the answers of the history are not those
        of each evaluation alone."""
        rel = 1e-6 if q["kind"] == "synthetic" else 1e-5
        hist = q["history"]
        changed = seen = deriv = 0
        for k, (h, got, want) in enumerate(zip(hist, a["history"], a["fresh"])):
            if k and hist[k - 1][0] != h[0]:
                changed = 1
            seen += changed
            deriv += changed and h[1] in ("gradient", "jacobian")
            if got["ok"] != want["ok"]:
                res.bad("success", "evaluation %d (%s of trajectory %d): %s, alone: %s"
                        % (k, h[1], h[0], got["ok"], want["ok"]))
                return None
            if h[0] in q["fail"] and got["ok"]:
                res.bad("made-up", "evaluation %d (%s) of a trajectory without states "
                        "succeeded" % (k, h[1]))
                return None
            if q.get("product") and h[0] == 0 and got["ok"] and (
                    h[1] == "gradient" or h[1] == "jacobian" and q["constraints"]):
                res.bad("no-derivative", "evaluation %d (%s) succeeded, though no "
                        "derivative exists" % (k, h[1]))
                return None
            if not got["ok"]:
                res.label("failed evaluation")
                if q.get("product") and h[0] == 0:
                    res.label("no derivative")
                continue
            g, w = got["v"], want["v"]
            if len(g) != len(w):
                res.bad("length", "evaluation %d" % k)
                return None
            num = [abs(z) for z in w if isinstance(z, (int, float))]
            scale = max(num) if num else 0.0
            for i, (y, z) in enumerate(zip(g, w)):
                if y == z:
                    continue
                if any(not isinstance(v, (int, float)) for v in (y, z)) or \
                        abs(y - z) > rel * max(scale, 1e-3):
                    res.bad("differs", "evaluation %d (%s of trajectory %d), entry %d: "
                            "%r, alone: %r" % (k, h[1], h[0], i, y, z))
                    return None
        return seen, deriv

    def run(self, q, ctx):
        res = Res()
        a = ctx.driver("optim").call(q)
        if "error" in a or "skip" in a:
            res.skip = "refused"
            res.label("refused: " + str(a)[:60])
            return res
        if q["op"] == "cache":
            return self.run_cache(q, a, res)
        seen = self.judge_history(q, a, res)
        if seen is None:
            return res
        seen, deriv = seen
        hist = q["history"]
        res.nontrivial = (len({h[0] for h in hist}) >= 2 and seen >= 3 and
                          deriv > 0)
        res.label(q["kind"])
        res.label("through " + (q["via"] or "the optimiser itself"))
        if q["fail"]:
            res.label("failing trajectories (%s)" % q["fail_how"])
        return res


if __name__ == "__main__":
    main(C20())
