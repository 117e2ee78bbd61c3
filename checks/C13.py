import copy
import json
import os
import common  # noqa: F401
import netgen
import sim
import vlib
import whole
from vlib import Check, Res, main

# more than that many points, steps or tries: the program may take as long as it
# likes and may ask for more memory than there is
BIG = 3e4
KEYS = ["id", "from", "to", "data", "time", "x", "values", "seed", "length", "diameter",
        "roughness", "desired_delta_x", "balancelaw", "scheme", "value", "unit", "G",
        "B", "nodes", "connections", "Pipe", "Sink", "Source", "Innode", "PQnode",
        "PVnode", "Vphinode", "StochasticPQnode", "ConstraintSink", "Shortpipe",
        "Controlvalve", "Compressorstation", "Transmissionline", "ExternalPowerplant",
        "Gaspowerconnection", "Pressureboundarynode", "simulation_settings",
        "problem_data", "defaults", "topology_json", "boundary_json", "start_time",
        "end_time", "desired_delta_t", "tolerance", "retries", "use_simplified_newton",
        "maximal_number_of_newton_iterations", "control_settings",
        "constraint_settings", "number_of_steps", "evaluate_constraints_every_n",
        "optimize", "stability_parameter", "cut_off_factor", "sigma_P", "theta_P",
        "number_of_stochastic_steps", "GRAZER_file_directory", "$schema", "", "boundary_values", "bogus"]
SETTINGS = {"constraint_settings": [{}, {"evaluate_constraints_every_n": 2},
                                    {"evaluate_constraints_every_n": 10 ** 9},
                                    {"evaluate_constraints_every_n": -1}, 3],
            "control_settings": [{}, {"number_of_steps": 1}, {"number_of_steps": 2},
                                 {"number_of_steps": 2 ** 31},
                                 {"number_of_steps": 1e300},
                                 {"number_of_steps": 2.5}, {"desired_delta_t": 1e300},
                                 {"desired_delta_t": 1e-300}, []],
            "optimize": [True, False, 1, "yes"]}


class Raw(str):
    """Text that is written as it is."""


def dump(x):
    if isinstance(x, Raw):
        return str(x)
    if isinstance(x, dict):
        return "{" + ", ".join(json.dumps(k) + ": " + dump(v) for k, v in x.items()) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(dump(v) for v in x) + "]"
    return json.dumps(x)


def paths(x, here=()):
    yield here
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, here + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from paths(v, here + (i,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def value(d):
    return d.weighted([
        (4, lambda: d.choice([0, -1, 1, 2, 1e-3, -0.0, 0.5, 3])),
        (4, lambda: d.choice([1e308, -1e308, 1e-320, 1e30, -1e30, 1e15, 1e9, -1e9,
                              1e-300, 4.9e-324, 1e20, 1e100])),
        (2, lambda: d.choice([2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 63 - 1,
                              2 ** 63, -2 ** 63, 2 ** 64 - 1, 2 ** 64])),
        (1, lambda: {"raw": d.choice(["1e999", "-1e999", "NaN", "1e", "-", "01",
                                      "1" * 400, "Infinity"])}),
        (3, lambda: d.choice([None, True, False])),
        (3, lambda: d.choice(["", "a", "1.0", "\u0000", "\u00fc\u20ac", "x" * 3000,
                              "gn0", "../problem/topology.json", "problem_data.json",
                              ".", "m", "1e400 m", "- m", " m", "k", "km"])),
        (3, lambda: d.choice([[], {}, [[]], [None], [1], {"a": 1}, [{}], {"id": "a"},
                              {"value": 1, "unit": "m"}, {"value": "1", "unit": "m"},
                              {"value": 1e308, "unit": "Ym"},
                              {"value": 1, "unit": "x m"}]))])()


def mutate(d, files):
    """One change somewhere in the files; its description."""
    name = d.weighted([(3, "problem_data.json"), (4, "topology.json")] + [
        (2, n) for n in sorted(files) if n not in ("problem_data.json",
                                                   "topology.json")])
    if name not in files:
        return None
    f = files[name]
    if isinstance(f, dict) and "text" in f and len(f) == 1 or not isinstance(
            f, (dict, list)):
        return None
    k = d.weighted([(6, "value"), (4, "remove"), (2, "rename"), (2, "repeat"),
                    (2, "swap"), (2, "graft"), (1, "add"), (1, "settings"),
                    (1, "text"), (1, "file"), (2, "scale"), (3, "shorten"),
                    (2, "wire"), (1, "times"), (3, "number")])
    ps = list(paths(f))
    # deep paths are many: choose a depth first
    depth = d.int(0, max(len(p) for p in ps))
    if k == "number":
        # every kind of number is as likely as any other
        ps = [p for p in paths(f) if p and number(get(f, p)) is not None]
        kinds = sorted({next((x for x in reversed(p) if isinstance(x, str)), "")
                        for p in ps})
        if not kinds:
            return None
        kind = d.choice(kinds)
        p = d.choice([p for p in ps if next(
            (x for x in reversed(p) if isinstance(x, str)), "") == kind])
        parent, last = get(f, p[:-1]), p[-1]
        parent[last] = d.weighted([
            (2, lambda: 0), (2, lambda: -parent[last]),
            (3, lambda: d.choice([-1, 1e-300, 1e300, -1e300, 0.5, 2 ** 31 - 1, 2 ** 32,
                                  -1e9])),
            (1, lambda: value(d))])()
        return "%s: number at %s" % (name, kind)
    if k == "wire":
        # an edge between other nodes
        t = files.get("topology.json")
        try:
            ends = [e for es in t["connections"].values() for e in es if "from" in e]
            ids = [v["id"] for vs in t["nodes"].values() for v in vs]
        except (TypeError, KeyError, AttributeError):
            return None
        ends = [e for e in ends if isinstance(e, dict)]
        if not ends or not ids:
            return None
        e, i = d.choice(ends), d.choice(ids)
        end = d.choice(["from", "to"])
        e[end] = i
        return "topology.json: wire at " + end
    if k == "times":
        try:
            s = files["problem_data.json"]["simulation_settings"]
            st = float(s["start_time"])
            w = float(s["end_time"]) - st
            s["start_time"] = st
        except (TypeError, KeyError, ValueError):
            return None
        if d.bool(0.1):
            # a step that fails, and may do so as often as an int counts
            s["retries"] = d.choice([2 ** 30, 2 ** 31 - 1])
            s["maximal_number_of_newton_iterations"] = 0
            return "problem_data.json: retries"
        w = d.choice([w, 1e-15, 1e-12, 1e-9, 1e-320, 1e-6 * w, 0.0, -w, 1e-3])
        s["end_time"] = st + w
        s["desired_delta_t"] = d.choice([w, 0.5 * w, 2 * w, 0.3 * w, 1.0, 1e-9, 1e10,
                                          1e300, -w])
        return "problem_data.json: times"
    if k == "shorten":
        ps = [p for p in ps if isinstance(get(f, p), (list, dict)) and get(f, p)]
        if not ps:
            return None
        p = d.choice(ps)
        x = get(f, p)
        keep = d.weighted([(2, 0), (1, 1)])
        for i in (range(len(x) - 1, keep - 1, -1) if isinstance(x, list) else
                  sorted(x)[keep:]):
            del x[i]
        return "%s: shorten to %d at %s" % (name, keep, "/".join(
            "*" if isinstance(x, int) else str(x) for x in p))
    ps = [p for p in ps if len(p) == depth] or [()]
    p = d.choice(ps)
    if k == "file":
        files[name] = {"text": d.choice([None, "", "{}", "[]", "null", "dir", "3"])}
        return "%s: file" % name
    if k == "text":
        t = dump(f)
        j = d.raw(len(t))
        how = d.weighted([(4, "cut"), (4, "drop"), (4, "insert"), (4, "flip"),
                          (3, "nest")])
        if how == "cut":
            t = t[:j]
        elif how == "drop":
            t = t[:j] + t[j + d.int(1, 9):]
        elif how == "insert":
            t = t[:j] + d.choice(["{", "}", "[", "]", ",", ":", '"', "\\", "0", "-",
                                  "\u00ff", "\\ud800", "/*", "[" * 3000, "null"]) + t[j:]
        elif how == "nest":
            n = d.weighted([(1, 900), (1, 3000), (1, 30000), (2, 300000)])
            j = t.find("{", j)
            v = d.weighted([(3, "[" * n + "]" * n), (1, '{"":' * n + "1" + "}" * n)])
            t = t[:j + 1] + '"deep":' + v + (
                "," if t[j + 1:].lstrip()[:1] != "}" else "") + t[j + 1:]
        else:
            t = t[:j] + chr(d.int(1, 255)) + t[j + 1:]
        files[name] = {"text": t}
        return "%s: text %s" % (name, how)
    if k == "settings":
        s = d.choice(sorted(SETTINGS))
        if not isinstance(files["problem_data.json"], dict):
            return None
        files["problem_data.json"][s] = copy.deepcopy(d.choice(SETTINGS[s]))
        return "problem_data.json: " + s
    if p == ():
        if k == "value":
            files[name] = value(d)
            return "%s: whole" % name
        return None
    parent, last = get(f, p[:-1]), p[-1]
    old = parent[last]
    if k == "value":
        parent[last] = value(d)
    elif k == "scale":
        if isinstance(old, bool) or not isinstance(old, (int, float)):
            return None
        parent[last] = old * d.choice([0.0, -1.0, 1e3, 1e-3, 1e6, 1e12, 1e-12, 1e40,
                                       1e-40, 1e200])
        if parent[last] in (float("inf"), float("-inf")):
            parent[last] = 1e308
    elif k == "remove":
        del parent[last]
    elif k == "rename":
        if not isinstance(parent, dict):
            return None
        del parent[last]
        parent[d.choice(KEYS)] = old
    elif k == "repeat":
        if isinstance(parent, list):
            for _ in range(d.weighted([(5, 1), (1, 40)])):
                parent.insert(d.raw(len(parent)), copy.deepcopy(old))
        else:
            parent[d.choice(KEYS)] = copy.deepcopy(old)
    elif k == "swap":
        other = d.choice(ps)
        if other == () or other == p:
            return None
        q = get(f, other[:-1])
        parent[last], q[other[-1]] = q[other[-1]], old
    elif k == "graft":
        # a part of another file
        src = d.choice([n for n in sorted(files) if isinstance(files[n], dict)
                        and "text" not in files[n]] or [name])
        sp = list(paths(files[src]))
        parent[last] = copy.deepcopy(get(files[src], d.choice(sp)))
    else:
        if isinstance(old, dict):
            old[d.choice(KEYS)] = value(d)
        elif isinstance(old, list):
            old.insert(d.raw(len(old)), value(d))
        else:
            return None
    return "%s: %s at %s" % (name, k, "/".join(
        "*" if isinstance(x, int) else str(x) for x in p))


def fix_raw(x):
    if isinstance(x, dict):
        if set(x) == {"raw"} and isinstance(x["raw"], str):
            return Raw(x["raw"])
        return {k: fix_raw(v) for k, v in x.items()}
    if isinstance(x, list):
        return [fix_raw(v) for v in x]
    return x


def number(x):
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) else None


def costly(files):
    """Whether the input may ask for more time or memory than a check has."""
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                n = number(v)
                if n is not None:
                    if k in ("number_of_steps", "number_of_stochastic_steps",
                             "retries", "maximal_number_of_newton_iterations") \
                            and n > 3e3:
                        return True
                    if k in ("desired_delta_t", "desired_delta_x") and 0 < n < 1e-2:
                        return True
                    if k in ("end_time",) and abs(n) > 1e6:
                        return True
                    if k == "start_time" and n < -1e6:
                        return True
                if k in ("length",) and isinstance(v, dict):
                    if (number(v.get("value")) or 0) > 1e5 or v.get("unit") not in (
                            "m", "km"):
                        return True
                if walk(v):
                    return True
        elif isinstance(x, list):
            return any(walk(v) for v in x)
        return False
    for v in files.values():
        if not isinstance(v, (dict, list)):
            continue
        if walk(v):
            return True
    pd = files.get("problem_data.json")
    if isinstance(pd, dict) and pd.get("optimize") is True:
        return True
    return False


class C13(Check):
    id = "C13"
    cli = True
    flavour = "asan"
    rule = ("at least one change that leaves the file readable as JSON, or a command "
            "line with at least one argument")
    assumptions = [
        "1-4 changes to the files of a valid problem (gas, power, coupled, stochastic "
        "and optimisation problems of up to about 15 components): values removed, "
        "replaced, retyped, scaled, moved between places and files, keys renamed, "
        "entries repeated, text cut or altered, files removed",
        "the program is built with the address and undefined-behaviour sanitizers "
        "and with assertions; float-to-integer conversions out of range count",
        "memory exhaustion and, where the settings ask for many steps, running for "
        "long are not judged",
        "command lines of up to 5 words over the names of the program's commands"]
    quick_cases = 6000
    quick_s = 60
    thorough_cases = 300000
    case_timeout = 200

    def gen(self, d):
        if d.bool(0.04):
            words = ["run", "schema", "make-full-factory", "insert-key", "-h", "--help",
                     "-v", "--version", "", "prob", "prob", "file", "nowhere", "--",
                     "-x", "--run", "run=prob", "-", "a" * 5000, "\u00fc", "prob/",
                     "prob/problem", "prob/../prob", "./prob"]
            base = d.choice([[], ["run"], ["schema"], ["schema", "insert-key"],
                             ["schema", "make-full-factory"], ["run", "prob"]])
            return {"argv": base + [d.choice(words) for _ in range(d.int(0, 3))],
                    "net": self.base(d)}
        files = self.base(d)
        done = []
        for _ in range(d.weighted([(4, 1), (3, 2), (1, 3), (1, 4)])):
            for _ in range(5):
                m = mutate(d, files)
                if m:
                    done.append(m)
                    break
        return {"files": files, "changes": done, "commands": d.weighted(
            [(12, ["run"]), (1, ["make-full-factory"]), (1, ["insert-key"]),
             (1, ["make-full-factory", "insert-key", "run"])])}

    def base(self, d):
        net = None
        if d.bool(0.25):
            net = whole.gen_opt(d, max_clusters=2, max_steps=3)
            if net:
                whole.constrain(net, None, None)
                if d.bool(0.2):     # all controls fixed, perhaps at absurd values
                    for i, w in net["lower_bounds"].items():
                        x = d.choice([w[0][1][0], 0.0, 500.0, -500.0, 1e5])
                        net["lower_bounds"][i] = net["upper_bounds"][i] = \
                            [[t, [x]] for t in (w[0][0], w[-1][0])]
        if net is None:
            net = sim.mixed(d, max_clusters=2, max_steps=2, stochastic=d.bool(0.25))
            if d.bool(0.1):         # optimised, perhaps without anything to choose
                net["optimize"] = True
                for k in ("lower_bounds", "upper_bounds", "constraint_lower_bounds",
                          "constraint_upper_bounds"):
                    net[k] = {} if k[0] == "c" else dict(net["control"])
        if d.bool(0.3):
            for i in net["boundary"]:
                if next((n for n in net["nodes"] if n["id"] == i),
                        {}).get("type") == "StochasticPQnode":
                    net["seeds"][i] = [d.int(0, 9)]
        if net.get("optimize") and d.bool(0.1):
            # a constrained node without edges
            s = net["sim"]
            net["nodes"].append({"id": "lonely", "type": "ConstraintSink"})
            for k in ("boundary", "constraint_lower_bounds", "constraint_upper_bounds"):
                net[k]["lonely"] = [[s["start_time"], [0.0]], [s["end_time"], [0.0]]]
        f = netgen.to_files(net)
        pipes = [e for e in f["topology.json"]["connections"].get("Pipe", [])]
        if pipes and d.bool(0.2):
            dd = {}
            for k in ("balancelaw", "scheme", "roughness"):
                dd[k] = pipes[0][k]
                for p in pipes:
                    del p[k]
            f["problem_data.json"]["problem_data"]["defaults"] = {"Pipe": dd}
        return f

    def describe(self, c):
        return {k: c[k] for k in ("changes", "commands", "argv") if k in c}

    def write(self, files, d):
        p = os.path.join(d, "problem")
        os.makedirs(p)
        for name, c in files.items():
            q = os.path.join(p, name)
            if isinstance(c, dict) and set(c) == {"text"}:
                t = c["text"]
                if t is None:
                    continue
                if t == "dir":
                    os.makedirs(q)
                    continue
                with open(q, "wb") as f:
                    f.write(t.encode("utf8", "surrogatepass") if not any(
                        0x80 <= ord(x) <= 0xff for x in t) else
                        t.encode("latin1", "replace"))
                continue
            with open(q, "w") as f:
                f.write(dump(fix_raw(c)))

    def judge(self, res, r, may_be_long, what):
        if r.hang:
            if may_be_long:
                res.skip = "takes long"
            else:
                res.bad("hang", "%s: no end within the time limit" % what)
            return
        t = r.out + r.err
        if "out-of-memory" in r.err or "allocation-size-too-big" in r.err or \
                "calloc-overflow" in r.err or "failed to allocate" in r.err or \
                "bad_alloc" in t or "exceeds maximum supported size" in r.err:
            res.skip = "memory"
            return
        if r.crashed or r.rc == 99:
            at = [l for l in r.err.splitlines() if "ERROR" in l or "runtime error" in l
                  or "Assert" in l or "terminate" in l or "what()" in l]
            where = [l.strip() for l in r.err.splitlines()
                     if l.strip().startswith("#") and "/repo/" in l][:4]
            res.bad("crash", "%s: status %s: %s %s" % (
                what, r.rc, " ".join(at)[-700:], " ".join(where)[-600:]))
        elif "This is a bug" in t:
            res.bad("bug", "%s: %s" % (what, t[-500:]))
        elif r.rc != 0 and not t.strip():
            res.bad("silent", "%s: status %s without a word" % (what, r.rc))
        elif r.rc not in (0, 1) and what != "command line":
            res.bad("status", "%s: status %s: %s" % (what, r.rc, t[-300:]))

    def run(self, c, ctx):
        res = Res()
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:max_allocation_size_mb=2500:"
                               "detect_stack_use_after_return=0")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        w = ctx.fresh()
        d = os.path.join(w, "prob")
        os.makedirs(d)
        exe = ctx.bins["grazer"]
        try:
            if "argv" in c:
                self.write(c["net"], d)
                with open(os.path.join(w, "file"), "w") as f:
                    f.write("{}")
                r = vlib.run_cli(exe, c["argv"], cwd=w, timeout=60, env=env)
                self.judge(res, r, True, "command line")
                res.label("command line: " + ("accepted" if r.rc == 0 else "refused"))
                res.nontrivial = len(c["argv"]) > 0
                return res
            self.write(c["files"], d)
            slow = costly(c["files"])
            for cmd in c["commands"]:
                args = ["run", d] if cmd == "run" else ["schema", cmd, d]
                r = vlib.run_cli(exe, args, cwd=w, timeout=20 if slow else 60, env=env)
                self.judge(res, r, slow, cmd)
                res.label("%s: %s" % (cmd, "accepted" if r.rc == 0 else "refused"))
                if res.findings:
                    break
            for m in c["changes"]:
                res.label("change: " + m.split(": ")[1].split(" at")[0])
            res.nontrivial = bool(c["changes"]) and not all(
                "text" in m or "file" in m.split(": ")[1] for m in c["changes"])
        finally:
            ctx.drop(w)
        return res


if __name__ == "__main__":
    main(C13())
