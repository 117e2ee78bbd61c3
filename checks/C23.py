import math
import common  # noqa: F401
from vlib import Check, Res, main

INNER = {"initial": 2, "control": 1, "boundary1": 1, "boundary2": 2}
VIEWS = ["plain", "mapped", "constmapped", "copy", "moved", "from_base"]


def interp(pts, vals, t):
    if t >= pts[-1]:
        return vals[-1]
    if t <= pts[0]:
        return vals[0]
    for i in range(1, len(pts)):
        if t <= pts[i]:
            l = (t - pts[i - 1]) / (pts[i] - pts[i - 1])
            return [(1 - l) * a + l * b for a, b in zip(vals[i - 1], vals[i])]


class C23(Check):
    id = "C23"
    drivers = ("basics",)
    rule = ("a valid series of two or more points queried at and between points and "
            "outside, or a malformed series")
    assumptions = [
        "1-9 points of magnitudes 1e-9 to 1e9, 1-3 entries per point, also as read "
        "from input with the schemas of pipes, compressors, sources and voltage "
        "nodes; repeated points are accepted by the program and not judged between "
        "them; arguments within 1e-10 outside the range may be accepted or refused",
        "interpolation compared at 1e-12 of the neighbouring values"]
    quick_cases = 40000
    thorough_cases = 1000000

    def points(self, d):
        n = d.int(1, 9)
        x = d.weighted([(3, 0.0), (1, -100.0), (1, 1.6e9), (1, 0.123), (1, -1e-3)])
        pts = [x]
        for _ in range(n - 1):
            x += d.weighted([(4, 1.0), (2, 0.1), (1, 3600.0), (1, 1e-6 * max(1, abs(x))),
                             (1, 1e7)]) * d.float(0.05, 3, 3)
            pts.append(x)
        return pts

    def values(self, d, n):
        m = d.weighted([(4, 1.0), (1, 1e6), (1, 1e-6), (1, 0.0)])
        return [m * d.float(-10, 10, 3) for _ in range(n)]

    def gen(self, d):
        kind = d.weighted([(4, "points"), (4, "json"), (1, "delta_number"),
                           (2, "delta_end"), (2, "number_end"), (2, "time")])
        c = {"op": "series", "kind": kind}
        if kind == "time":
            s = d.weighted([(3, 0.0), (1, 1e6), (1, -50.0), (1, 0.1)])
            dt = d.weighted([(2, 1.0), (2, 0.1), (1, 0.3), (1, 3600.0), (1, 1e-4)])
            n = d.int(-1, 40)
            e = s + d.weighted([(2, n * dt), (1, (n + 0.5) * dt),
                                (1, (n + 1e-7) * dt)])
            return {"op": "timedata", "kind": kind, "settings": {
                "start_time": s, "end_time": e,
                "desired_delta_t": dt * d.weighted([(5, 1), (1, -1), (1, 0)])}}
        pts = None
        c["bad"] = None
        if kind in ("points", "json"):
            pts = self.points(d)
        if kind == "json":
            c["schema"] = d.choice(sorted(INNER))
            inner = INNER[c["schema"]]
            c["inner"] = inner
            vals = [self.values(d, inner) for _ in pts]
            key = "x" if c["schema"] == "initial" else "time"
            c["points"], c["vals"] = pts, vals
            data = [{key: p, "values": v} for p, v in zip(pts, vals)]
            if c["schema"] == "initial":    # has to begin at 0
                off = pts[0]
                for e in data:
                    e[key] -= off
                c["points"] = pts = [e[key] for e in data]
            obj = {"id": "a", "data": data}
            if d.bool(0.35):
                i = d.raw(len(data) - 1)
                b = d.choice(["unsorted", "short", "long", "none", "string", "null",
                              "nokey", "wrongkey", "strkey", "notarray", "nodata",
                              "empty", "bool"])
                e = data[i]
                if b == "unsorted":
                    if len(data) < 2:
                        b = None
                    else:
                        j = (i + 1) % len(data)
                        data[i], data[j] = data[j], data[i]
                elif b == "short":
                    e["values"] = e["values"][:-1]
                elif b == "long":
                    e["values"] = e["values"] + [1.0]
                elif b == "none":
                    del e["values"]
                elif b == "string":
                    e["values"] = ["1.0"] + e["values"][1:]
                elif b == "bool":
                    e["values"] = [True] + e["values"][1:]
                elif b == "null":
                    e["values"] = [None] + e["values"][1:]
                elif b == "nokey":
                    del e[key]
                elif b == "wrongkey":
                    e["t"] = e.pop(key)
                elif b == "strkey":
                    e[key] = str(e[key])
                elif b == "notarray":
                    e["values"] = 1.0
                elif b == "nodata":
                    del obj["data"]
                else:
                    obj["data"] = []
                c["bad"] = b
            c["data"] = obj
        elif kind == "points":
            inner = d.int(1, 3)
            c["inner"] = inner
            if d.bool(0.2) and len(pts) > 1:
                i = d.int(1, len(pts) - 1)
                pts[i], pts[i - 1] = pts[i - 1], pts[i]
                c["bad"] = "unsorted"
            c["points"] = pts
            c["values"] = self.values(d, len(pts) * inner)
            c["fill"] = d.choice(["steps", "bulk"])
            if d.bool(0.15):
                k = d.choice([-1, 1, inner])
                c["values"] = self.values(d, len(pts) * inner + k)
                c["exact"] = True
                c["fill"] = "bulk"
                c["bad"] = c["bad"] or "number of values"
        else:
            c["inner"] = d.int(1, 3)
            c["values"] = self.values(d, 5)
            c["fill"] = d.choice(["steps", "bulk"])
            c["a"] = d.weighted([(3, 0.0), (1, 1e7), (1, -20.0), (1, 0.7)])
            c["n"] = d.int(-1, 12)
            c["delta"] = d.weighted([(3, 0.1), (2, 1.0), (1, 900.0), (1, 1 / 3)]) * \
                d.weighted([(6, 1), (1, 0), (1, -1)])
            dd = abs(c["delta"]) or 1.0
            c["b"] = c["a"] + d.weighted([(3, dd * d.int(0, 50)),
                                          (2, dd * d.float(-1, 20, 4))])
            bad = {"delta_number": c["n"] <= 0 or c["delta"] <= 0,
                   "delta_end": c["delta"] <= 0 or c["b"] <= c["a"],
                   "number_end": c["n"] <= 1 or c["b"] <= c["a"]}[kind]
            c["bad"] = "grid" if bad else None
        # where to look
        q = []
        base = pts or [c["a"], max(c["a"] + 1e-3, c["b"] if kind != "delta_number"
                                   else c["a"] + (c["n"] - 1) * c["delta"])]
        for _ in range(d.int(2, 8)):
            i = d.raw(len(base) - 1)
            w = d.weighted([(3, "at"), (4, "between"), (1, "below"), (1, "above"),
                            (1, "edge"), (1, "nan")])
            if w == "at":
                q.append(base[i])
            elif w == "between":
                j = min(i + 1, len(base) - 1)
                q.append(base[i] + d.float(0, 1) * (base[j] - base[i]))
            elif w == "below":
                q.append(min(base) - d.log(1e-8, 10))
            elif w == "above":
                q.append(max(base) + d.log(1e-8, 10))
            elif w == "edge":
                q.append(d.choice([min(base) - 5e-11, max(base) + 5e-11]))
            else:
                q.append(d.choice(["inf", "-inf"]))
        c["queries"] = q
        c["touch"] = d.raw(20)
        if pts and not c["bad"] and d.bool(0.5):
            lo, hi = pts[0], pts[-1]
            c["resample"] = sorted(lo + d.float(0, 1) * (hi - lo)
                                   for _ in range(d.int(1, 6)))
        return c

    def run(self, c, ctx):
        res = Res()
        res.label(c["kind"])
        r = ctx.driver("basics").call(c)
        if c["kind"] == "time":
            return self.time(c, r, res)
        if c["bad"]:
            res.label("malformed: " + c["bad"])
            res.nontrivial = True
            if "error" not in r:
                res.bad("accepted", "malformed series (%s) accepted: %r" % (
                    c["bad"], {k: c[k] for k in c if k != "queries"}))
            return res
        if "error" in r:
            res.bad("refused", "%r: %s" % (c, r["error"]))
            return res
        p = r["plain"]
        pts, inner, n = p["points"], p["inner"], p["size"]
        flat = r["given"]
        vals = [flat[i * inner:(i + 1) * inner] for i in range(n)]
        if c["kind"] in ("points", "json"):
            want = c["points"]
            if pts != want or inner != c["inner"]:
                res.bad("points", "points %r instead of %r" % (pts, want))
                return res
            if c["kind"] == "json" and vals != [[float(x) for x in v]
                                                for v in c["vals"]]:
                res.bad("values", "values %r instead of %r" % (vals, c["vals"]))
                return res
        else:
            self.grid(c, pts, res)
            if res.findings:
                return res
        if r["stored"] != flat:
            res.bad("assign", "mapped storage holds %r, not %r" % (r["stored"], flat))
        if not all(r["equal"]):
            res.bad("equal", "equal series compare unequal: %r" % r["equal"])
        if not all(r.get("unequal", [True])):
            res.bad("unequal", "different series compare equal")
        for view in VIEWS + (["after"] if "after" in r else []):
            v = r[view]
            if v["size"] != n or v["points"] != pts or v["all"] != flat or \
                    v["inner"] != inner:
                res.bad("view", "%s differs from the series: %r" % (view, v))
                return res
            if v["at"] != ["error"] + vals + ["error"]:
                res.bad("at-index", "%s: by index %r, values %r" % (view, v["at"], vals))
                return res
            for t, got in zip(c["queries"], v["values"]):
                t = float(t)
                out = max(pts[0] - t, t - pts[-1])
                if out > 2e-10:
                    res.label("outside")
                    if got != "error":
                        res.bad("extrapolated", "%s: argument %r outside [%r, %r] gives"
                                " %r" % (view, t, pts[0], pts[-1], got))
                        return res
                    continue
                if out > 0:
                    if got == "error" and out > 5e-11:
                        continue
                if got == "error":
                    res.bad("refused-inside", "%s: argument %r inside [%r, %r] refused"
                            % (view, t, pts[0], pts[-1]))
                    return res
                w = interp(pts, vals, t)
                if t in pts:
                    # repeated points: any of theirs
                    ok = any(got == vals[i] for i in range(n) if pts[i] == t)
                    if not ok:
                        res.bad("at-point", "%s: at the point %r it is %r, given %r"
                                % (view, t, got, w))
                        return res
                    continue
                self.compare(res, got, w, vals, "%s at %r" % (view, t), pts, t)
                if res.findings:
                    return res
        if "resampled" in r:
            for i, t in enumerate(c["resample"]):
                got = r["resampled"][i * inner:(i + 1) * inner]
                self.compare(res, got, interp(pts, vals, t), vals, "resampled at %r"
                             % t, pts, t)
            res.label("resampled")
        res.nontrivial = n >= 2 and len(c["queries"]) >= 2
        return res

    @staticmethod
    def compare(res, got, want, vals, what, pts, t):
        m = max([abs(x) for v in vals for x in v] + [0.0])
        # a query point itself is rounded
        if len(got) != len(want) or any(
                isinstance(a, str) or abs(a - b) > 1e-12 * m
                for a, b in zip(got, want)):
            res.bad("interpolation", "%s: %r instead of %r (points %r)" % (
                what, got, want, pts))

    @staticmethod
    def grid(c, pts, res):
        k = c["kind"]
        n = len(pts)
        if pts[0] != c["a"]:
            res.bad("grid-start", "grid starts at %r: %r" % (pts[0], c))
        if k != "delta_number" and pts[-1] != c["b"]:
            res.bad("grid-end", "grid ends at %r instead of %r" % (pts[-1], c["b"]))
        mag = max(abs(pts[0]), abs(pts[-1]))
        if k in ("delta_number", "number_end") and n != c["n"]:
            res.bad("grid-size", "%d points instead of %d" % (n, c["n"]))
            return
        if k == "delta_number":
            step = c["delta"]
        else:
            step = (c["b"] - c["a"]) / max(1, n - 1)
        if k == "delta_end":
            ratio = (c["b"] - c["a"]) / c["delta"]
            ok = [math.ceil(ratio * (1 + s)) + 1 for s in (-1e-14, 0, 1e-14)]
            # rounding of a and b themselves
            eps = 4e-16 * mag / c["delta"]
            ok += [math.ceil(ratio - eps) + 1, math.ceil(ratio + eps) + 1]
            if n not in ok:
                res.bad("grid-size", "%d points, expected %r: %r" % (n, ok, c))
                return
        for i, p in enumerate(pts):
            if abs(p - (pts[0] + i * step)) > 1e-9 * step + 4e-16 * mag * 2:
                res.bad("grid", "point %d is %r: not equidistant (%r)" % (i, p, step))
                return

    @staticmethod
    def time(c, r, res):
        s = c["settings"]
        a, b, dt = s["start_time"], s["end_time"], s["desired_delta_t"]
        res.nontrivial = True
        if b < a or dt <= 0:
            res.label("malformed: time")
            if "error" not in r:
                res.bad("accepted-time", "%r gives %r" % (s, r))
            return res
        if b == a:
            res.skip = "empty time span"
            return res
        if "error" in r:
            res.bad("refused-time", "%r: %s" % (s, r["error"]))
            return res
        n = r["points"]
        if r["start"] != a or r["end"] != b:
            res.bad("time-ends", "%r gives %r" % (s, r))
        ratio = (b - a) / dt
        eps = 1e-9
        ok = {math.ceil(ratio - eps) + 1, math.ceil(ratio + eps) + 1,
              math.ceil(ratio) + 1}
        if n not in ok:
            res.bad("time-number", "%r gives %d points, expected %r" % (s, n, ok))
        elif abs(r["delta"] * (n - 1) - (b - a)) > 1e-12 * (b - a):
            res.bad("time-step", "%r: %d steps of %r" % (s, n - 1, r["delta"]))
        return res


if __name__ == "__main__":
    main(C23())
