import copy
import common  # noqa: F401
from vlib import Check, Res, main

NODES = {"Innode": "e", "Source": "e", "Sink": "e", "ConstraintSink": "be",
         "Pressureboundarynode": "e", "PQnode": "es", "PVnode": "es",
         "Vphinode": "es", "StochasticPQnode": "es", "ExternalPowerplant": "es"}
EDGES = {"Pipe": "es", "Shortpipe": "es", "Controlvalve": "cs",
         "Compressorstation": "$cs", "Transmissionline": "",
         "Gaspowerconnection": "es"}
PIPE = {"length": {"value": 18.0224, "unit": "km"},
        "diameter": {"value": 535.0, "unit": "mm"},
        "roughness": {"value": 0.02535, "unit": "mm"}, "desired_delta_x": 5827.2,
        "balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme"}
STOCH = {"stability_parameter": 1.0, "cut_off_factor": 0.3, "sigma_P": 0.4,
         "theta_P": 3.0, "sigma_Q": 0.03, "theta_Q": 0.0,
         "number_of_stochastic_steps": 10}
POWER = ("PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant")
WRONG = ["repeated in its list", "repeated among the nodes",
         "repeated among the edges", "node and edge share an id",
         "unknown start", "unknown end", "end is an edge", "joins a node with itself",
         "node listed as edge", "edge listed as node", "unknown kind of node",
         "unknown kind of edge", "node without id", "edge without id",
         "edge without start", "repeated in the boundary data"]


def new_id(d, used):
    for k in range(1000):
        s = d.weighted([(3, "n"), (2, "e"), (1, "N"), (1, "n1"), (1, ""), (1, "ä ")])
        s += d.weighted([(4, str(d.int(0, 30))), (1, "0%d" % d.int(0, 9)),
                         (1, "x" * d.int(1, 40))])
        if k > 20:
            s += "_%d" % k
        if s not in used:
            used.add(s)
            return s


class C26(Check):
    id = "C26"
    drivers = ("graph",)
    flavour = "asan"
    rule = ("a network with at least two edges that share a node, built after at "
            "least one change of order, pool or attachment (histories), or a problem "
            "of at least three kinds of components, or a refused set")
    assumptions = [
        "networks are built with address and undefined behaviour sanitizers, a "
        "report is a failure",
        "the graph classes themselves leave the uniqueness of ids to the function "
        "that builds a network from problem data, so repeated ids are only generated "
        "there",
        "components are not used after they were destroyed, except by destroying "
        "others that refer to them"]
    quick_cases = 40000
    thorough_cases = 1000000

    def gen(self, d):
        return self.gen_build(d) if d.bool(0.3) else self.gen_history(d)

    # ------------------------------------------------------------ histories
    def gen_history(self, d):
        P = d.int(1, 3)
        nodes = [[] for _ in range(P)]    # handles
        edges = [[] for _ in range(P)]
        nid, ends, used = {}, {}, set()
        ops = []
        nets = []   # [nodes, edges] or None
        nn = d.int(1, 8)
        for _ in range(nn):
            p = d.raw(P - 1)
            h = "N%d" % len(nid)
            nid[h] = new_id(d, used)
            nodes[p].append(h)
            ops.append(["node", p, h, nid[h]])

        def add_edge(p, wrong=None):
            if not nodes[p]:
                return
            a, b = d.choice(nodes[p]), d.choice(nodes[p])
            h = "E%d" % len(ends)
            ia, ib = nid[a], nid[b]
            if wrong == "start":
                ia = new_id(d, used)
            if wrong == "end":
                ib = new_id(d, used)
            ep = p if d.bool(0.9) else d.raw(P - 1)
            ops.append(["edge", p, h, new_id(d, used), ia, ib, ep])
            if wrong is None and a != b:
                ends[h] = (a, b)
                edges[ep].append(h)
            else:
                ends[h] = None

        def alive():
            return [h for p in nodes for h in p]

        def alive_edges():
            return [h for p in edges for h in p]

        for _ in range(d.int(0, 10)):
            add_edge(d.raw(P - 1), d.weighted([(12, None), (1, "start"), (1, "end")]))
        calm = d.bool(0.6)
        for _ in range(d.int(0, 12)):
            k = d.weighted([(3, "swap_nodes"), (3, "swap_edges"), (1, "edge"),
                            (1, "lists"), (1, "ends"), (1, "node")] +
                           ([] if calm else
                            [(2, "detach"), (2, "attach_start"), (2, "attach_end"),
                             (1, "move_node"), (2, "move_edge"), (1, "reattach")]))
            p = d.raw(P - 1)
            if k == "swap_nodes" and nodes[p]:
                i, j = d.raw(len(nodes[p]) - 1), d.raw(len(nodes[p]) - 1)
                nodes[p][i], nodes[p][j] = nodes[p][j], nodes[p][i]
                ops.append([k, p, i, j])
            elif k == "swap_edges" and edges[p]:
                i, j = d.raw(len(edges[p]) - 1), d.raw(len(edges[p]) - 1)
                edges[p][i], edges[p][j] = edges[p][j], edges[p][i]
                ops.append([k, p, i, j])
            elif k == "edge":
                add_edge(p)
            elif k == "node":
                h = "N%d" % len(nid)
                nid[h] = new_id(d, used)
                nodes[p].append(h)
                ops.append(["node", p, h, nid[h]])
            elif k in ("detach", "attach_start", "attach_end", "reattach"):
                if alive() and alive_edges():
                    e = d.choice(alive_edges())
                    n = d.choice(ends[e]) if d.bool(0.7) else d.choice(alive())
                    if k == "reattach":
                        ops.append(["detach", n, e])
                        if n in ends[e]:
                            w = "attach_start" if n == ends[e][0] else "attach_end"
                            ops.append([w, n, e])
                    else:
                        ops.append([k, n, e])
            elif k == "lists" and alive():
                ops.append([k, d.choice(alive())])
            elif k == "ends" and alive_edges():
                ops.append([k, d.choice(alive_edges())])
            elif k == "move_node" and nodes[p]:
                i, q = d.raw(len(nodes[p]) - 1), d.raw(P - 1)
                if q != p:
                    nodes[q].append(nodes[p].pop(i))
                    ops.append([k, p, i, q])
            elif k == "move_edge" and edges[p]:
                i, q = d.raw(len(edges[p]) - 1), d.raw(P - 1)
                if q != p:
                    edges[q].append(edges[p].pop(i))
                    ops.append([k, p, i, q])
        # networks from the pools
        dead = set()
        order = d.shuffle(list(range(P)))
        for p in order:
            q = p if d.bool(0.9) else d.raw(P - 1)
            # destroyed nodes must not be asked: an edge may only meet nodes
            # that are alive
            live = set(alive())
            if any(v not in live for e in edges[q] for v in ends[e]):
                live_nets = {h for n in nets if n for h in n[0]}
                if any(v not in live | live_nets for e in edges[q] for v in ends[e]):
                    continue
            ops.append(["net", p, q])
            ok = self.can(nodes[p], edges[q], ends, ops)
            nets.append([nodes[p], edges[q]] if ok else None)
            if not ok:
                dead.update(edges[q])
            nodes[p], edges[q] = [], []
        # nor may lists that mention destroyed edges be read
        starts, finis, _, _ = self.attachments(ops, len(ops))
        for n in nets:
            if n and any(e in dead for h in n[0] for e in starts[h] + finis[h]):
                return self.gen_build(d)
        k = [i for i, n in enumerate(nets) if n is not None]
        asked = [nid[h] for h in list(nid)[:6]] + [new_id(d, used)]
        for _ in range(d.int(1, 6) if k else 0):
            i, j = d.choice(k), d.choice(k)
            w = d.weighted([(2, "move_net"), (1, "move_nets"), (1, "swap_nets"),
                            (3, "query"), (1, "foreign")])
            if w == "swap_nets":
                if i != j:
                    nets[i], nets[j] = nets[j], nets[i]
                    ops.append([w, i, j])
            elif w == "foreign":
                ops.append([w, i, d.choice(nets[d.choice(k)][0] or ["N0"])])
                if ops[-1][2] not in {h for n in nets if n for h in n[0]}:
                    ops.pop()
            elif w == "query":
                ops.append([w, i, asked])
            else:
                ops.append([w, i])
        for i in k:
            ops.append(["query", i, asked])
        # destroy
        things = [["drop_net", i] for i in range(len(nets))]
        for p in range(P):
            things += [["drop_nodes", p], ["drop_edges", p]]
            if nodes[p]:
                things.append(["drop_node", p, d.raw(len(nodes[p]) - 1)])
            if edges[p]:
                things.append(["drop_edge", p, d.raw(len(edges[p]) - 1)])
        dropped = set()
        for t in d.shuffle(things)[:d.int(0, len(things))]:
            if t[0] == "drop_nodes":
                dropped.add(("n", t[1]))
            if t[0] == "drop_edges":
                dropped.add(("e", t[1]))
            if t[0] == "drop_node" and ("n", t[1]) in dropped:
                continue
            if t[0] == "drop_edge" and ("e", t[1]) in dropped:
                continue
            ops.append(t)
        return {"op": "history", "pools": P, "ops": ops}

    def attachments(self, ops, upto):
        """Reference: what the lists of every node hold."""
        starts, finis, ends, ids = {}, {}, {}, {}
        by_id = {}
        where = {}
        for op in ops[:upto]:
            k = op[0]
            if k == "node":
                ids[op[2]] = op[3]
                by_id[op[3]] = op[2]
                starts[op[2]], finis[op[2]] = [], []
            elif k == "edge":
                a, b = by_id.get(op[4]), by_id.get(op[5])
                if a is None or b is None or a == b:
                    continue
                ids[op[2]] = op[3]
                ends[op[2]] = (a, b)
                starts[a].append(op[2])
                finis[b].append(op[2])
                where[op[2]] = op[6]
            elif k == "detach":
                if op[2] in starts[op[1]]:
                    starts[op[1]].remove(op[2])
                elif op[2] in finis[op[1]]:
                    finis[op[1]].remove(op[2])
            elif k == "attach_start" and ends[op[2]][0] == op[1]:
                starts[op[1]].append(op[2])
            elif k == "attach_end" and ends[op[2]][1] == op[1]:
                finis[op[1]].append(op[2])
        return starts, finis, ends, ids

    def can(self, ns, es, ends, ops):
        starts, finis, _, _ = self.attachments(ops, len(ops))
        return all(ends[e][0] in ns and ends[e][1] in ns and
                   e in starts[ends[e][0]] and e in finis[ends[e][1]] for e in es)

    def run_history(self, q, ctx, res):
        a = ctx.driver("graph").call(q)
        if "error" in a:
            res.bad("driver", a["error"])
            return
        nodes = [[] for _ in range(q["pools"])]
        edges = [[] for _ in range(q["pools"])]
        nets = []
        changed = shared = refused = False
        for n, (op, got) in enumerate(zip(q["ops"], a["answers"])):
            k = op[0]
            starts, finis, ends, ids = self.attachments(q["ops"], n)
            what = "operation %d %s: got %r" % (n, op[:6], got)
            err = isinstance(got, dict) and "error" in got
            if k == "node":
                nodes[op[1]].append(op[2])
            elif k == "edge":
                here = {ids[h]: h for h in nodes[op[1]]}
                bad = op[4] not in here or op[5] not in here or op[4] == op[5]
                if err != bad:
                    res.bad("edge", what + (", refusal expected" if bad else ""))
                    return
                if bad:
                    res.label("edge refused")
                    refused = True
                else:
                    edges[op[6]].append(op[2])
            elif k == "swap_nodes":
                v = nodes[op[1]]
                v[op[2]], v[op[3]] = v[op[3]], v[op[2]]
                changed = changed or op[2] != op[3]
            elif k == "swap_edges":
                v = edges[op[1]]
                v[op[2]], v[op[3]] = v[op[3]], v[op[2]]
                changed = changed or op[2] != op[3]
            elif k == "move_node":
                nodes[op[3]].append(nodes[op[1]].pop(op[2]))
                changed = True
            elif k == "move_edge":
                edges[op[3]].append(edges[op[1]].pop(op[2]))
                changed = True
            elif k == "detach":
                want = op[2] in starts[op[1]] or op[2] in finis[op[1]]
                changed = True
                if got != want:
                    res.bad("detach", what)
                    return
            elif k in ("attach_start", "attach_end"):
                want = ends[op[2]][0 if k == "attach_start" else 1] == op[1]
                changed = True
                if got != want:
                    res.bad("attach", what)
                    return
            elif k == "lists":
                want = [sorted(ids[e] for e in starts[op[1]]),
                        sorted(ids[e] for e in finis[op[1]])]
                if [sorted(x) for x in got] != want:
                    res.bad("lists", what + ", expected %r" % (want,))
                    return
            elif k == "ends":
                if got != [ids[h] for h in ends[op[1]]]:
                    res.bad("ends", what)
                    return
            elif k == "net":
                ns, es = nodes[op[1]], edges[op[2]]
                ok = all(ends[e][0] in ns and ends[e][1] in ns and
                         e in starts[ends[e][0]] and e in finis[ends[e][1]]
                         for e in es)
                if ok == err:
                    res.bad("net", what + (", a graph" if ok else ", no graph"))
                    return
                res.label("net" if ok else "net refused")
                refused = refused or not ok
                nets.append((ns, es) if ok else None)
                nodes[op[1]], edges[op[2]] = [], []
            elif k == "swap_nets":
                nets[op[1]], nets[op[2]] = nets[op[2]], nets[op[1]]
            elif k == "foreign":
                if got != (op[2] in nets[op[1]][0]):
                    res.bad("exists", what)
                    return
            elif k == "query":
                ns, es = nets[op[1]]
                want_n = {ids[h]: ("", sorted(ids[e] for e in starts[h]),
                                   sorted(ids[e] for e in finis[h])) for h in ns}
                want_e = {ids[e]: ("", ids[ends[e][0]], ids[ends[e][1]]) for e in es}
                # edges of another pool may be attached to members
                strangers = any(e not in es for h in ns for e in starts[h] + finis[h])
                self.compare(got, want_n, want_e, op[2], res, not strangers)
                if res.fail:
                    return
                deg = {}
                for e in es:
                    for h in ends[e]:
                        deg[h] = deg.get(h, 0) + 1
                shared = shared or any(v > 1 for v in deg.values())
            if err and k not in ("edge", "net"):
                res.bad("error", what)
                return
        res.label("history")
        res.nontrivial = bool((shared and changed) or refused)

    def compare(self, got, nodes, edges, asked, res, closed=True):
        """A described network against {id: (kinds, start, end)}."""
        g = {n["id"]: (n["kinds"], sorted(n["start"]), sorted(n["end"]))
             for n in got["nodes"]}
        if len(got["nodes"]) != len(nodes) or \
                {k: v[1:] for k, v in g.items()} != {k: v[1:] for k, v in nodes.items()}:
            res.bad("nodes", "nodes are %r, expected %r" % (g, nodes))
        h = {e["id"]: (e["kinds"], e["from"], e["to"]) for e in got["edges"]}
        if len(got["edges"]) != len(edges) or \
                {k: v[1:] for k, v in h.items()} != {k: v[1:] for k, v in edges.items()}:
            res.bad("edges", "edges are %r, expected %r" % (h, edges))
        for k in list(g) + list(h):
            w = nodes.get(k) or edges.get(k)
            x = g.get(k) or h.get(k)
            if w and set(w[0]) != set(x[0]):
                res.bad("kinds", "%s takes part as %r, expected %r" % (k, x[0], w[0]))
        if any(not x["itself"] for x in got["nodes"] + got["edges"]) or \
                any(n["copy"] != n["id"] for n in got["nodes"]):
            res.bad("lookup", "a member is not found by its id")
        if not got["whole"] and closed:
            res.bad("whole", "an attached component is not part of the network")
        for a in ("valid_ids", "const_nodes"):
            if sorted(got[a]) != sorted(nodes):
                res.bad(a, "%r, expected %r" % (got[a], sorted(nodes)))
        if sorted(got["const_edges"]) != sorted(edges):
            res.bad("const_edges", "%r" % got["const_edges"])
        for i, (n, e) in zip(asked, got["looked"]):
            if n != (i if i in nodes else None) or e != (i if i in edges else None):
                res.bad("lookup", "%r finds %r and %r" % (i, n, e))
        it = iter(got["between"])
        for i in asked:
            for j in asked:
                ex, e = next(it)
                can = [k for k, v in edges.items() if v[1:] == (i, j)]
                back = [k for k, v in edges.items() if v[1:] == (j, i)]
                if ex != bool(can or back):
                    res.bad("between", "edge between %r and %r: %r" % (i, j, ex))
                if (e is None) == bool(can) or (e is not None and e not in can):
                    res.bad("by ends", "from %r to %r: %r, expected one of %r" %
                            (i, j, e, can))

    # --------------------------------------------------------- problem data
    def gen_build(self, d):
        used = set()
        kinds = list(NODES)
        nodes = []
        for _ in range(d.int(2, 9)):
            nodes.append([new_id(d, used), d.choice(kinds)])
        edges = []
        for _ in range(d.int(0, 9)):
            t = d.choice(list(EDGES))
            a, b = d.choice(nodes), d.choice(nodes)
            if a is b:
                continue
            edges.append([new_id(d, used), t, a[0], b[0]])
        top = {"nodes": {}, "connections": {}}
        bnd = {"nodes": {}, "connections": {}}
        for i, t in d.shuffle(nodes):
            o = {"id": i}
            if t in POWER:
                o.update(G=1.5, B=-3.0)
            if t == "StochasticPQnode":
                o.update(STOCH)
            top["nodes"].setdefault(t, []).append(o)
            if t != "Innode":
                v = [1.0, 0.5] if t in POWER else [40.0]
                bnd["nodes"].setdefault(t, []).append(
                    {"id": i, "data": [{"time": 0.0, "values": v},
                                       {"time": 10.0, "values": v}]})
        for t in bnd["nodes"]:
            bnd["nodes"][t] = d.shuffle(bnd["nodes"][t])
        for i, t, a, b in d.shuffle(edges):
            o = {"id": i, "from": a, "to": b}
            if t == "Pipe":
                o.update(copy.deepcopy(PIPE))
            if t == "Transmissionline":
                o.update(G=-1.5, B=3.0)
            if t == "Gaspowerconnection":
                o.update(gas2power_q_coeff=0.01, power2gas_q_coeff=0.02)
            top["connections"].setdefault(t, []).append(o)
        wrong = None
        if d.bool(0.4):
            wrong = d.choice(WRONG)
            if not self.spoil(d, top, bnd, nodes, edges, wrong, used):
                wrong = None
        asked = [n[0] for n in nodes[:5]] + [e[0] for e in edges[:2]] + [
            new_id(d, used)]
        return {"op": "build", "wrong": wrong, "questions": asked,
                "want": [nodes, edges],
                "net": {"topology_json": top, "boundary_json": bnd, "defaults": {}}}

    def spoil(self, d, top, bnd, nodes, edges, wrong, used):
        N, E = top["nodes"], top["connections"]
        nl = [(t, o) for t in N for o in N[t]]
        el = [(t, o) for t in E for o in E[t]]
        if "edge" in wrong or wrong in ("unknown start", "unknown end",
                                        "joins a node with itself"):
            if not el:
                return False
        t, o = d.choice(nl)
        et, eo = d.choice(el) if el else (None, None)
        if wrong == "repeated in its list":
            N[t].insert(d.raw(len(N[t])), dict(o))
        elif wrong == "repeated among the nodes":
            others = [x for x in N if x != t]
            if not others:
                return False
            d.choice(N[d.choice(others)])["id"] = o["id"]
        elif wrong == "repeated among the edges":
            if len(el) < 2:
                return False
            x, y = d.sample(el, 2)
            x[1]["id"] = y[1]["id"]
        elif wrong == "node and edge share an id":
            eo["id"] = o["id"]
        elif wrong == "unknown start":
            eo["from"] = new_id(d, used)
        elif wrong == "unknown end":
            eo["to"] = new_id(d, used)
        elif wrong == "end is an edge":
            eo[d.choice(["from", "to"])] = d.choice(el)[1]["id"]
        elif wrong == "joins a node with itself":
            eo["to"] = eo["from"]
        elif wrong == "node listed as edge":
            E.setdefault(t, []).append(dict(o, **{"from": nodes[0][0],
                                                  "to": nodes[1][0],
                                                  "id": new_id(d, used)}))
        elif wrong == "edge listed as node":
            N.setdefault(et, []).append(dict(eo, id=new_id(d, used)))
        elif wrong == "unknown kind of node":
            N[d.choice(["Node", "innode", "Net", t + " ", "Powernode"])] = [
                {"id": new_id(d, used), "G": 1.0, "B": 1.0}]
        elif wrong == "unknown kind of edge":
            E[d.choice(["Edge", "pipe", et + "s", "Gasedge"])] = [
                {"id": new_id(d, used), "from": nodes[0][0], "to": nodes[1][0]}]
        elif wrong == "node without id":
            del o["id"]
        elif wrong == "edge without id":
            del eo["id"]
        elif wrong == "edge without start":
            del eo[d.choice(["from", "to"])]
        elif wrong == "repeated in the boundary data":
            bl = [(k, x) for k in bnd["nodes"] for x in bnd["nodes"][k]]
            if not bl:
                return False
            k, x = d.choice(bl)
            bnd["nodes"][k].append(copy.deepcopy(x))
        return True

    def run_build(self, q, ctx, res):
        a = ctx.driver("graph").call(q)
        if "error" in a:
            res.bad("driver", a["error"])
            return
        if q["wrong"]:
            res.label("wrong: " + q["wrong"])
            res.nontrivial = True
            if "refused" not in a:
                res.bad("accepted/" + q["wrong"], "no error for: " + q["wrong"])
            return
        if "refused" in a:
            res.bad("refused", a["refused"])
            return
        nodes, edges = q["want"]
        we = {i: (EDGES[t], x, y) for i, t, x, y in edges}
        wn = {i: (NODES[t], sorted(e[0] for e in edges if e[2] == i),
                  sorted(e[0] for e in edges if e[3] == i)) for i, t in nodes}
        for k in ("first", "moved"):
            self.compare(a[k], wn, we, q["questions"], res)
        res.label("built from data")
        res.nontrivial = len({n[1] for n in nodes} | {e[1] for e in edges}) >= 3

    def describe(self, q):
        if q["op"] == "history":
            return {"pools": q["pools"], "ops": q["ops"][:40]}
        return {"wrong": q["wrong"], "want": q["want"]}

    def run(self, q, ctx):
        res = Res()
        if q["op"] == "history":
            self.run_history(q, ctx, res)
        else:
            self.run_build(q, ctx, res)
        return res


if __name__ == "__main__":
    main(C26())
