import copy
import common  # noqa: F401
import netgen
import sim
import model
from netgen import interp, si
from vlib import Check, Res, main


def flip(net, eid):
    """Turns an edge around."""
    for e in net["edges"]:
        if e["id"] != eid:
            continue
        e["from"], e["to"] = e["to"], e["from"]
        if e["type"] == "Transmissionline":
            return
        pts = net["initial"][eid]
        L = si(e["length"]) if e["type"] == "Pipe" else 1.0
        inner = [[x, v] for x, v in pts if x < L]
        pts = inner + [[L, interp(pts, L)]]
        net["initial"][eid] = [[0.0 if x == L else L - x, [v[0], -v[1]]]
                               for x, v in reversed(pts)]


def rename(net, names):
    for n in net["nodes"]:
        n["id"] = names[n["id"]]
    for e in net["edges"]:
        for k in ("id", "from", "to"):
            e[k] = names[e[k]]
    for t in ("boundary", "initial", "control", "seeds"):
        net[t] = {names[i]: v for i, v in net[t].items()}


def permute(net, keys):
    """Reorders everything by generated keys."""
    k = iter(keys * 50)
    net["nodes"].sort(key=lambda n: (next(k), n["id"]))
    net["edges"].sort(key=lambda n: (next(k), n["id"]))
    for t in ("boundary", "initial", "control", "seeds"):
        net[t] = dict(sorted(net[t].items(), key=lambda n: (next(k), n[0])))


def default(net, typ, prop):
    """Writes one property of a component type as a default."""
    comps = [c for c in net["nodes"] + net["edges"] if c["type"] == typ]
    v = comps[0][prop]
    for c in comps:
        if c[prop] == v:
            del c[prop]
    net["defaults"].setdefault(typ, {})[prop] = v


NOT_DEFAULT = ("id", "type", "from", "to", "x", "y")


def transform(net, ops):
    net = copy.deepcopy(net)
    for op in ops:
        if op[0] == "flip":
            for i in op[1]:
                flip(net, i)
        elif op[0] == "permute":
            permute(net, op[1])
        elif op[0] == "default":
            default(net, op[1], op[2])
    for op in ops:
        if op[0] == "rename":
            rename(net, op[1])
    return net


def compare(a, b, names, flipped, thr):
    """The first component whose results differ by more than thr."""
    worst = (0.0, "")
    for i in a.data:
        sa, sb = a.data[i], b.data.get(names.get(i, i))
        if sb is None or len(sa) != len(sb):
            return (float("inf"), "%s: reported differently" % i)
        for k, (x, y) in enumerate(zip(sa, sb)):
            if x["time"] != y["time"]:
                return (float("inf"), "%s: times %r, %r" % (i, x["time"], y["time"]))
            if "V" in x:
                pairs = [(n, x[n], y[n], 1.0) for n in ("V", "phi", "P", "Q")]
            else:
                pairs = []
                for n, ref in (("pressure", 1.0), ("flow", 1.0)):
                    u, w = x[n], y[n]
                    if len(u) != len(w):
                        return (float("inf"), "%s: %d and %d points" % (
                            i, len(u), len(w)))
                    if i in flipped:
                        w = list(reversed(w))
                    sg = -1 if i in flipped and n == "flow" else 1
                    pairs += [("%s[%d]" % (n, j), p["value"], sg * q["value"],
                               1.0 + 0.01 * abs(p["value"]))
                              for j, (p, q) in enumerate(zip(u, w))]
            for n, p, q, scale in pairs:
                if not (model.finite(p) and model.finite(q)):
                    return (float("inf"), "%s step %d: %s %r, %r" % (i, k, n, p, q))
                d = abs(p - q) / scale
                if d > worst[0]:
                    worst = (d, "%s step %d: %s is %r in one, %r in the other" % (
                        i, k, n, p, q))
    return worst


class C07(Check):
    id = "C07"
    cli = True
    rule = ("both problems are simulated successfully, have at least two edges and "
            "the rewriting changes the files")
    assumptions = [
        "results of the two problems may differ by 1e-6 relative; if they differ by "
        "more, both are simulated again with a Newton tolerance of 1e-10 times the "
        "original one, and only a difference that persists is a violation (a "
        "badly conditioned problem is no violation)",
        "a turned edge has its initial values mirrored too"]
    quick_cases = 6000
    thorough_cases = 120000

    def gen(self, d):
        net = sim.mixed(d, max_clusters=4, max_steps=4, far_phases=False)
        ops = []
        if d.bool(0.5):
            ops.append(["permute", [d.raw(1000) for _ in range(12)]])
        if d.bool(0.5):
            cand = [e["id"] for e in net["edges"] if e["type"] in
                    ("Pipe", "Shortpipe", "Transmissionline")]
            if cand:
                ops.append(["flip", d.sample(cand, d.int(1, len(cand)))])
        if d.bool(0.5):
            ids = [c["id"] for c in net["nodes"] + net["edges"]]
            new = ["%s%d" % (chr(ord("A") + d.raw(25)), k) for k in range(len(ids))]
            if d.bool(0.3):
                new = d.shuffle(ids)
            ops.append(["rename", dict(zip(ids, new))])
        if d.bool(0.4) or not ops:
            comps = net["nodes"] + net["edges"]
            for _ in range(d.int(1, 3)):
                c = d.choice(comps)
                props = [p for p in c if p not in NOT_DEFAULT]
                if props:
                    p = d.choice(props)
                    if not any(o[:3] == ["default", c["type"], p] for o in ops):
                        ops.append(["default", c["type"], p])
        return {"net": net, "ops": ops}

    @staticmethod
    def two_solutions(net, ops, a, b):
        """Power flow equations have several solutions, and which one is found may
        depend on rounding: then both results are right."""
        if not any("V" in s[0] for s in a.out.data.values() if s):
            return False
        net2 = transform(net, [o for o in ops if o[0] != "default"])
        for n, o in ((net, a.out), (net2, model.Out(net2, b.states))):
            res = Res()
            tol = sim.tolf(n)
            sim.put(res, model.check_power(n, o, tol))
            sim.put(res, model.check_gas_nodes(n, o, tol))
            sim.put(res, model.check_pipes(n, o, n["sim"]["tolerance"]))
            sim.put(res, model.check_short(n, o, tol))
            sim.put(res, model.check_coupling(n, o, tol))
            if res.fail:
                return False
        return True

    def run(self, case, ctx):
        res = Res()
        net, ops = case["net"], case["ops"]
        net2 = transform(net, ops)
        names = {}
        flipped = set()
        for op in ops:
            res.label(op[0])
            if op[0] == "rename":
                names = op[1]
            if op[0] == "flip":
                flipped = {i for i in op[1] if not any(
                    e["id"] == i and e["type"] == "Transmissionline"
                    for e in net["edges"])}
        a, b = sim.Sim(ctx, net), sim.Sim(ctx, net2)
        if a.crash(res) or b.crash(res):
            return res
        if not (a.ok and b.ok):
            if a.ok != b.ok:
                res.label("only one succeeded")
                # not a matter of conditioning if it is refused at once
                bad = a if b.ok else b
                if "data read" not in bad.r.out:
                    res.bad("refused", "the rewritten problem is treated differently: "
                            + bad.message())
            res.skip = "simulation failed"
            return res
        w, msg = compare(a.out, b.out, names, flipped, 1e-6)
        if w > 1e-6:
            res.label("compared again")
            net = copy.deepcopy(net)
            net["sim"]["tolerance"] = max(1e-12, net["sim"]["tolerance"] * 1e-4)
            net["sim"]["maximal_number_of_newton_iterations"] = 200
            a, b = sim.Sim(ctx, net), sim.Sim(ctx, transform(net, ops))
            if not (a.ok and b.ok):
                res.skip = "not comparable"
                return res
            w, msg = compare(a.out, b.out, names, flipped, 1e-6)
            if w > 1e-6 and self.two_solutions(net, ops, a, b):
                res.label("more than one solution of the power flow")
                res.skip = "not comparable"
                return res
            if w > 1e-6:
                res.bad("differs", msg)
        res.nontrivial = len(net["edges"]) > 1 and bool(ops)
        if w > 1e-8:
            res.label("difference above 1e-8")
        return res


if __name__ == "__main__":
    main(C07())
