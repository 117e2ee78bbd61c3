import common  # noqa: F401
import sim
import model
from vlib import Check, Res, main


class C01(Check):
    id = "C01"
    cli = True
    rule = ("the simulation succeeds and at least one node with prescribed or "
            "zero inflow joins two or more edges, and the network carries flow")
    assumptions = [
        "networks of 1-4 clusters of nodes joined by short edges and 0-5 pipes, "
        "1-6 time steps, and in some of up to 20 clusters, 80 cells per pipe or 70 "
        "time steps; a simulation that the program itself reports as failed "
        "decides nothing here (C11, C12 judge failures)",
        "balance and pressures are compared at 3 times the Newton tolerance"]
    quick_cases = 12000
    thorough_cases = 300000

    def gen(self, d):
        m = d.weighted([(5, "gas"), (1, "coupled"), (1, "both")])
        return sim.gen_net(d, gas=True, power=m == "both", coupling=m == "coupled",
                           max_clusters=5, wide=0.03)

    def run(self, net, ctx):
        res = Res()
        s = sim.Sim(ctx, net)
        if not sim.usable(s, res):
            return res
        stats = {}
        sim.put(res, model.check_gas_nodes(net, s.out, sim.tolf(net), stats))
        deg = {}
        for e in model.gas_edges(net):
            deg[e["from"]] = deg.get(e["from"], 0) + 1
            if e["type"] != "Gaspowerconnection":
                deg[e["to"]] = deg.get(e["to"], 0) + 1
        joined = 0
        for n in net["nodes"]:
            if n["type"] != "Pressureboundarynode" and deg.get(n["id"], 0) >= 2:
                joined += 1
                res.label("joins:" + n["type"])
            if deg.get(n["id"], 0) >= 3:
                res.label("junction of 3+")
            if n["type"] == "Pressureboundarynode":
                res.label("pressure boundary, degree %d" % min(3, deg.get(n["id"], 0)))
        flow = any(abs(v["value"]) > 1e-3 for e in model.gas_edges(net)
                   for v in s.out.data[e["id"]][-1]["flow"])
        res.nontrivial = joined > 0 and flow
        if any(e["type"] == "Gaspowerconnection" for e in net["edges"]):
            res.label("with gas power connection")
        return res


if __name__ == "__main__":
    main(C01())
