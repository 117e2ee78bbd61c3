"""Shared by the black-box simulation checks: generate a net, run the program
on it, read the results."""
import os
import netgen
import model
import vlib


def gen_net(d, gas=True, power=False, coupling=False, stochastic=False,
            max_steps=6, max_clusters=4, far_phases=True, wide=0, **kw):
    """wide: share of problems with far more steps, cells or components."""
    net = netgen.empty_net()
    big = d.weighted([(1, "steps"), (1, "cells"), (1, "net")]) \
        if wide and d.bool(wide) else None
    st, en, dt = netgen.gen_times(d, max_steps)
    if big == "steps":
        en = st + dt * d.int(10, 70) * d.choice([1.0, 0.99])
    if big == "net":
        max_clusters = d.int(6, 20)
    netgen.gen_settings(d, net, st, en, dt)
    g = p = None
    if gas or coupling:
        g = netgen.gen_gas(d, net, st, en, max_clusters, **kw)
    if power or coupling or stochastic:
        p = netgen.gen_power(d, net, st, en, stochastic=stochastic,
                             plants=d.int(1, 2) if coupling else 0,
                             far_phases=far_phases,
                             max_nodes=d.int(6, 25) if big == "net" else 5)
    if coupling:
        netgen.gen_coupling(d, net, g, p)
    netgen.gen_control_settings(d, net, st, en, dt)
    pipes = [e for e in net["edges"] if e["type"] == "Pipe"]
    if big == "cells" and pipes:
        e = d.choice(pipes)
        e["desired_delta_x"] = round(
            netgen.si(e["length"]) / (d.int(8, 80) - d.choice([0, 0.3])), 3)
    if big:
        net["wide"] = big
    return net


def mixed(d, **kw):
    """Any kind of network."""
    m = d.weighted([(3, "gas"), (2, "power"), (1, "both"), (2, "coupled")])
    return gen_net(d, gas=m in ("gas", "both"), power=m in ("power", "both"),
                   coupling=m == "coupled", **kw)


class Sim:
    def __init__(self, ctx, net, files=None, env=None, timeout=60, exe=None,
                 keep=False):
        self.dir = ctx.fresh()
        self.ctx = ctx
        self.net = net
        netgen.write_files(files if files is not None else netgen.to_files(net),
                           self.dir)
        self.r = vlib.run_cli(exe or ctx.bins["grazer"], ["run", self.dir],
                              timeout=timeout, env=env)
        self.ok = self.r.rc == 0
        o = netgen.read_outputs(self.dir)
        self.outputs = o
        self.states = o[-1][1] if o else None
        self.controls = o[-1][2] if o else None
        self.out = model.Out(net, self.states) if self.states is not None else None
        if not keep:
            ctx.drop(self.dir)

    def crash(self, res):
        """Records a death or a hang of the program."""
        if self.r.hang:
            res.bad("hang", "no end within the time limit")
        elif self.r.crashed:
            res.bad("crash", "status %s: %s" % (
                self.r.rc, (self.r.out[-300:] + self.r.err)[-900:]))
        else:
            return False
        return True

    def message(self):
        return (self.r.out + self.r.err).strip()[-400:]


def usable(sim, res):
    """True if there are results to judge; records what must not be."""
    if sim.crash(res):
        return False
    if sim.net.get("wide") and sim.ok:
        res.label("large: " + sim.net["wide"])
    if not sim.ok:
        res.skip = "simulation failed"
        return False
    if sim.out is None:
        res.bad("no-states", "success reported, but no readable states.json: "
                + sim.message())
        return False
    bad = model.check_structure(sim.net, sim.out)
    if bad:
        res.bad(*bad[0])
        return False
    return True


def tolf(net, factor=3):
    t = net["sim"]["tolerance"]
    return lambda mag: factor * t + 1e-12 * mag


def put(res, bads):
    for k, m in bads[:3]:
        res.bad(k, m)

