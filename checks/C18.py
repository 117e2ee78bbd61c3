import common  # noqa: F401
from vlib import Check, Res, main


class C18(Check):
    id = "C18"
    drivers = ("basics",)
    rule = ("two or more rounds of assembly, one of them overwriting stored "
            "coefficients, with a place that receives more than one contribution")
    assumptions = [
        "the oracle is a dense matrix adding the same numbers in the same order; "
        "compared at 1e-13 of the sum of absolute values (the sum may be formed in "
        "another order)"]
    quick_cases = 60000
    thorough_cases = 1500000

    def gen(self, d):
        n, m = d.int(1, 7), d.int(1, 7)
        rounds = []
        cells = d.list(1, 14, lambda: [d.raw(n - 1), d.raw(m - 1)])

        def ops(places, transposed):
            r = []
            for _ in range(d.int(0, 2 * len(places) + 2)):
                i, j = d.choice(places)
                v = d.weighted([(3, float(d.int(-9, 9))), (2, d.float(-1, 1)),
                                (1, 1e12), (1, -1e12), (1, 1e-12), (1, 0.0),
                                (3, None)])
                if v is None:
                    v = (1 if d.bool(0.5) else -1) * d.log(1e-20, 1e15)
                r.append([j, i, v] if transposed else [i, j, v])
            return r

        for k in range(d.int(1, 6)):
            t = d.bool(0.3)
            kind = "triplets" if k == 0 else d.weighted(
                [(5, "coefficients"), (1, "triplets")])
            # sometimes a place that was not in the collected pattern
            extra = [] if d.bool(0.8) else [[d.raw(n - 1), d.raw(m - 1)]]
            sub = d.shuffle(cells)[:d.int(1, len(cells))] if d.bool(0.3) else cells
            r = {"kind": kind, "transposed": t, "ops": ops(sub + extra, t)}
            if kind == "coefficients" and d.bool(0.2):
                r["finish"] = False
            rounds.append(r)
        return {"op": "assemble", "rows": n, "cols": m, "rounds": rounds}

    def run(self, case, ctx):
        res = Res()
        a = ctx.driver("basics").call(case)
        if "error" in a:
            res.bad("refused", a["error"])
            return res
        twice = False
        over = False
        for k, (rnd, got) in enumerate(zip(case["rounds"], a["r"])):
            want, mag, cnt = {}, {}, {}
            for i, j, v in rnd["ops"]:
                if rnd["transposed"]:
                    i, j = j, i
                want[i, j] = want.get((i, j), 0.0) + v
                mag[i, j] = mag.get((i, j), 0.0) + abs(v)
                cnt[i, j] = cnt.get((i, j), 0) + 1
            twice = twice or any(c > 1 for c in cnt.values())
            over = over or (rnd["kind"] == "coefficients" and rnd["ops"])
            res.label(rnd["kind"] + (" transposed" if rnd["transposed"] else ""))
            for i in range(case["rows"]):
                for j in range(case["cols"]):
                    x = got["dense"][i][j]
                    w = want.get((i, j), 0.0)
                    if isinstance(x, str) or abs(x - w) > 1e-13 * mag.get((i, j), 0.0):
                        res.bad("entry", "round %d (%s): entry (%d,%d) is %r, "
                                "contributions sum to %r" % (k, rnd["kind"], i, j, x, w))
                        return res
        res.nontrivial = bool(twice and over)
        return res


if __name__ == "__main__":
    main(C18())
