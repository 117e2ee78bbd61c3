import common  # noqa: F401
from vlib import Check, Res, main


def increasing(d, n, lo, hi):
    """n different times in [lo, hi]."""
    if d.bool(0.5):
        xs = d.sample(list(range(0, 41)), n)
        return sorted(lo + (hi - lo) * x / 40.0 for x in xs)
    return sorted({lo + (hi - lo) * d.float(0, 1) for _ in range(n)})


class C21(Check):
    id = "C21"
    drivers = ("optim",)
    rule = ("at least two control times and two constraint times, of which at least "
            "one constraint time lies strictly between two control times or on one")
    assumptions = [
        "a control at control time j can influence a constraint at time t if t is "
        "later than control time j-1 (controls are interpolated linearly, states "
        "depend on earlier controls)",
        "which further entries are stored is free, as long as the coordinate list "
        "names each once"]
    quick_cases = 40000
    thorough_cases = 1000000

    def gen(self, d):
        lo = d.weighted([(3, 0.0), (1, -3600.0), (1, 17.25)])
        hi = lo + d.weighted([(2, 1.0), (2, 3600.0), (1, 0.1)])
        nc = d.int(1, 9)
        ct = [lo] + [t for t in increasing(d, nc - 1, lo, hi) if lo < t < hi]
        if nc > 1 or d.bool():
            ct.append(hi)
        style = d.raw(2)
        if style == 0:
            gt = increasing(d, d.int(1, 9), lo, hi)
        elif style == 1:
            gt = d.sample(ct, d.int(1, len(ct)))
        else:
            gt = d.sample(ct, d.int(1, len(ct))) + increasing(
                d, d.int(1, 4), lo, hi)
        gt = sorted(set(gt))
        q = {"op": "jacobian", "constraints": d.int(1, 4),
             "controls": d.int(1, 4), "constraint_times": gt,
             "control_times": ct}
        if d.bool(0.5):
            q["other"] = self.similar(d, q)
        return q

    @staticmethod
    def similar(d, q):
        """Grids and numbers that differ a little, or not at all."""
        o = {k: q[k] for k in ("constraints", "controls", "constraint_times",
                               "control_times")}
        how = d.weighted([(2, "swap"), (3, "move control"), (3, "move constraint"),
                          (1, "fewer"), (1, "same"), (1, "scaled"), (2, "number")])
        ct, gt = list(q["control_times"]), list(q["constraint_times"])
        if how == "swap":
            o["constraints"], o["controls"] = o["controls"], o["constraints"]
        elif how == "number":
            k = d.choice(("constraints", "controls"))
            o[k] = d.int(1, 4)
        elif how == "move control" and len(ct) > 2:
            i = d.int(1, len(ct) - 2)
            ct[i] = ct[i] + d.float(-0.9, 0.9, 2) * min(ct[i] - ct[i - 1],
                                                        ct[i + 1] - ct[i])
        elif how == "move constraint" and len(gt) > 2:
            i = d.int(1, len(gt) - 2)
            gt[i] = gt[i] + d.float(-0.9, 0.9, 2) * min(gt[i] - gt[i - 1],
                                                        gt[i + 1] - gt[i])
        elif how == "fewer":
            if d.bool() and len(gt) > 1:
                del gt[d.raw(len(gt) - 1)]
            elif len(ct) > 2:
                del ct[d.int(1, len(ct) - 2)]
        elif how == "scaled":
            # the same structure at other times
            a = ct[0]
            ct = [a + 2 * (t - a) for t in ct]
            gt = [a + 2 * (t - a) for t in gt]
        o["control_times"], o["constraint_times"] = ct, gt
        return o

    def run(self, q, ctx):
        res = Res()
        a = ctx.driver("optim").call(q)
        if "error" in a:
            res.bad("refused", a["error"])
            return res
        k, c = q["constraints"], q["controls"]
        gt, ct = q["constraint_times"], q["control_times"]
        H, W = k * len(gt), c * len(ct)
        nnz = a["nnz"]
        for name in ("own", "mapped"):
            o = a[name]
            if o["outer"] != [len(gt), len(ct)] or o["inner"] != [H, W] or \
                    o["block"] != [k, c, k * c]:
                res.bad("dimensions", "%s: %s %s %s" % (
                    name, o["outer"], o["inner"], o["block"]))
                return res
            coords = list(zip(o["rows"], o["cols"]))
            if len(coords) != nnz or len(set(coords)) != nnz:
                res.bad("repeated-entry", "%s: %d entries, %d different, %d stored"
                        % (name, len(coords), len(set(coords)), nnz))
                return res
            for r, s in coords:
                if not (0 <= r < H and 0 <= s < W):
                    res.bad("outside", "%s: (%d,%d) in %dx%d" % (name, r, s, H, W))
                    return res
            at = {rc: i for i, rc in enumerate(coords)}
            for i, g in enumerate(gt):
                for j in range(len(ct)):
                    if j == 0 or g > ct[j - 1]:
                        for x in range(k):
                            for y in range(c):
                                if (i * k + x, j * c + y) not in at:
                                    res.bad("missing-entry", "%s: constraint time %r, "
                                            "control time %r" % (name, g, ct[j]))
                                    return res
            # every stored value was written through the blocks exactly once
            val = o["written"]
            if sorted(val) != [float(x) for x in range(1, nnz + 1)]:
                res.bad("blocks", "%s: writing all blocks leaves %s" % (
                    name, str(val)[:200]))
                return res
            if o["read"] != [float(x) for x in range(1, nnz + 1)]:
                res.bad("read", "%s: blocks read back %s" % (name, o["read"][:20]))
                return res
            dense = o["dense"]
            if len(dense) != H or any(len(r) != W for r in dense):
                res.bad("dense-shape", "%s: %d rows" % (name, len(dense)))
                return res
            for r in range(H):
                for s in range(W):
                    want = val[at[r, s]] if (r, s) in at else 0.0
                    if dense[r][s] != want:
                        res.bad("dense", "%s: entry (%d,%d) is %r, listed %r" % (
                            name, r, s, dense[r][s], want))
                        return res
            # blocks: entry (x,y) of column block j is what the list says
            v = 1.0
            for j, (bh, bw) in enumerate(o.get("block_shape") or []):
                col = o["columns"][j]
                if [bh, bw] != [col[1], c] or col[1] != col[0] * k or \
                        col[2] != len(gt) - col[0] or col[3] != col[2] * k or \
                        col[4] != j or col[5] != j * c or \
                        col[7] - col[6] != bh * bw or col[9] != col[6] or \
                        col[8] * k * c != col[9]:
                    res.bad("column-data", "%s column %d: shape %s, data %s" % (
                        name, j, [bh, bw], col))
                    return res
                for x in range(bh):
                    for y in range(bw):
                        i = at.get((H - bh + x, j * c + y))
                        if i is None or val[i] != v:
                            res.bad("block-entry", "%s: (%d,%d) of block %d" % (
                                name, x, y, j))
                            return res
                        if not col[6] <= i < col[7]:
                            res.bad("column-range", "%s: block %d, entry %d not in "
                                    "%s" % (name, j, i, col[6:8]))
                            return res
                        v += 1
        ones = [1.0] * nnz
        half = [0.5 * i for i in range(nnz)]
        checks = [("equal", a["equal"], True), ("ones", a["ones"], True),
                  ("differ", a["differ"], nnz > 1 or a["differ"]),
                  ("mapped = own", a["mapped_after"], ones),
                  ("own = mapped", a["own_after"], half),
                  ("copy", a["copy"], half), ("copy of base", a["copy2"], half),
                  ("original after change of the copy", a["own_kept"], half),
                  ("replaced storage", a["replaced"], [4.0] * nnz),
                  ("new storage after setZero", a["other"], [0.0] * nnz),
                  ("old storage", a["store_kept"], half)]
        for n, got, want in checks:
            if got != want:
                res.bad("assignment", "%s: %s, not %s" % (
                    n, str(got)[:150], str(want)[:150]))
                return res
        if "second" in a:
            z = a["second"]
            o = q["other"]
            same = (o["constraints"], o["controls"], len(o["constraint_times"]),
                    len(o["control_times"]), z["rows"], z["cols"]) == (
                        k, c, len(gt), len(ct), a["own"]["rows"], a["own"]["cols"])
            res.label("two of the same structure" if same else
                      "two of different structures")
            threes = [3.0] * z["nnz"]
            want = {"equal": [same] * 5, "unequal": [not same] * 5,
                    "refused": [not same] * 4,
                    "second": threes if same else [1.0] * z["nnz"],
                    "mapped2": threes if same else [1.0] * z["nnz"]}
            for n, w in want.items():
                if z[n] != w:
                    res.bad("structures", "%s of two matrices of %s structure: %s"
                            % (n, "the same" if same else "different", z[n]))
                    return res
        inner = any(x < g <= y for g in gt for x, y in zip(ct[1:], ct[2:]))
        res.nontrivial = len(ct) > 1 and len(gt) > 1 and inner
        res.label("controls=%d" % len(ct), "constraints=%d" % len(gt))
        if any(g in ct for g in gt):
            res.label("constraint at a control time")
        if nnz < H * W:
            res.label("sparse")
        return res


if __name__ == "__main__":
    main(C21())
