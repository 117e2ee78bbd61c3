import os
import sys
try:
    import jsonschema
except ImportError:     # only the venv of the verification tools has it
    if os.environ.get("VERIF_VENV"):
        raise
    os.environ["VERIF_VENV"] = "1"
    os.execvp("python3-vt", ["python3-vt"] + sys.argv)
import common  # noqa: F401
import copy
import C07
import json
import netgen
import sim
import vlib
from vlib import Check, Res, main

NAMES = ("topology", "boundary", "initial", "control", "problem_data")


def components(files, name):
    """[(path to the list, index)] of the component entries of a file."""
    res = []
    for cls, types in files[name + ".json"].items():
        for typ, items in types.items():
            for i in range(len(items)):
                res.append((cls, typ, i))
    return res


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield path + (k,)
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield path + (i,)
            yield from leaves(v, path + (i,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def other_type(d, v):
    opts = [("a string", "abc"), ("a number", 4.5), ("an object", {}),
            ("an array", []), ("null", None), ("a boolean", True)]
    me = ("a boolean" if isinstance(v, bool) else "a string" if isinstance(v, str)
          else "a number" if isinstance(v, (int, float)) else "an object"
          if isinstance(v, dict) else "an array" if isinstance(v, list) else "null")
    return d.choice([o for o in opts if o[0] != me])


class C15(Check):
    id = "C15"
    cli = True
    rule = ("a runnable problem with at least two component types in its topology, "
            "and a mutation that the schemas or the program refuse")
    assumptions = [
        "runnable problems are generated networks whose files describe components "
        "of the problem only; mutations are one missing property, one value of "
        "another type, one negative tolerance or counter or one unknown component type in the description of a "
        "component (unknown types: in the topology) or in the settings",
        "for such a mutation the schemas and the program must agree, except that "
        "the program may convert a boolean given for a number",
        "validity is decided by the Python package jsonschema (draft 7)"]
    quick_cases = 3000
    thorough_cases = 60000

    def gen(self, d):
        if d.bool(0.25):
            net = sim.gen_net(d, gas=d.bool(0.3), power=True, stochastic=True,
                              max_steps=2, max_clusters=2)
        else:
            net = sim.mixed(d, max_steps=2, max_clusters=3)
        for n in net["nodes"]:
            for k in ("sigma_P", "sigma_Q"):
                if k in n:
                    n[k] = min(n[k], 0.01)
        if d.bool(0.03):
            netgen.lengthen(d, net)
        dflt = []
        if d.bool(0.4):     # defaults, used by some components
            for _ in range(d.int(1, 3)):
                c = d.choice(net["nodes"] + net["edges"])
                props = [p for p in c if p not in C07.NOT_DEFAULT]
                if not props:
                    continue
                p = d.choice(props)
                v = copy.deepcopy(c[p])
                if (c["type"], p) in dflt:
                    continue
                net["defaults"].setdefault(c["type"], {})[p] = v
                dflt.append((c["type"], p))
                for x in net["nodes"] + net["edges"]:
                    if x["type"] == c["type"] and (x is c or x[p] == v) and d.bool(0.6):
                        del x[p]
        files = netgen.to_files(net)
        ms = []
        for _ in range(d.int(1, 3)):
            if dflt and d.bool(0.4):
                # the default concerns this property
                t, p = d.choice(dflt)
                cs = [c for c in components(files, "topology") if c[1] == t and
                      p in get(files["topology.json"], c)]
                if cs:
                    m = {"file": "topology", "path": list(d.choice(cs)) + [p],
                         "kind": d.choice(["missing", "type", "type"])}
                    if m["kind"] == "type":
                        m["what"], m["value"] = d.weighted([
                            (1, ("null", None)), (1, other_type(
                                d, get(files["topology.json"], m["path"])))])
                    ms.append(m)
                    continue
            name = d.weighted([(4, "topology"), (2, "boundary"), (2, "initial"),
                               (2, "control"), (2, "problem_data")])
            kind = d.weighted([(3, "missing"), (3, "type"), (1, "unknown")])
            m = {"file": name}
            if name == "problem_data":
                ps = [p for p in leaves(files["problem_data.json"])
                      if p[0] in ("simulation_settings", "problem_data",
                                  "control_settings") and "defaults" not in p and
                      (len(p) > 1 or p[0] != "control_settings")]
                p = d.choice(ps)
                if p[0] == "control_settings":
                    continue
                m["path"] = list(p)
                kind = "missing" if kind == "missing" else "type"
                if p[-1] in ("retries", "tolerance",
                             "maximal_number_of_newton_iterations") and d.bool(0.5):
                    kind = "range"
                    m["what"] = "a negative number"
                    m["value"] = d.choice([-1, -3, -100]) if p[-1] != "tolerance" \
                        else d.choice([-1, -1e-7, -0.5])
            elif kind == "unknown":
                cs = components(files, "topology")
                c = d.choice(cs)
                m = {"file": "topology", "path": [c[0], c[1]]}
            else:
                cs = components(files, name)
                if not cs:
                    continue
                c = d.choice(cs)
                inner = list(leaves(get(files[name + ".json"], c)))
                if kind == "missing":
                    inner = [p for p in inner if isinstance(p[-1], str)]
                # not every interpolation point: a few are as good
                p = d.choice(inner)
                m["path"] = list(c + p)
            m["kind"] = kind
            if kind == "type":
                m["what"], m["value"] = other_type(
                    d, get(files[m["file"] + ".json"], m["path"]))
                if m["path"][-1] in ("topology_json", "boundary_json") and \
                        m["value"] == {}:
                    m["what"], m["value"] = "a number", 4.5
            ms.append(m)
        return {"files": files, "mutations": ms,
                "types": len({t for c in files["topology.json"].values() for t in c})}

    def describe(self, q):
        return {"mutations": q["mutations"], "types": q["types"],
                "topology": q["files"]["topology.json"]}

    def schemas(self, p, ctx, res):
        r = vlib.run_cli(ctx.bins["grazer"], ["schema", "make-full-factory", p])
        if r.hang or r.crashed or r.rc != 0:
            res.bad("schema-command", "status %s: %s" % (r.rc, (r.out + r.err)[-500:]))
            return None
        out = {}
        for n in NAMES:
            try:
                with open(os.path.join(p, "schemas", n + "_schema.json"), "rb") as f:
                    out[n] = f.read()
            except OSError as e:
                res.bad("schema-missing", str(e))
                return None
        return out

    def runs(self, files, ctx):
        p = ctx.fresh()
        netgen.write_files(files, p)
        r = vlib.run_cli(ctx.bins["grazer"], ["run", p])
        o = netgen.read_outputs(p)
        ctx.drop(p)
        return r, any(x[1] is not None for x in o)

    def run(self, q, ctx):
        res = Res()
        files = q["files"]
        p = ctx.fresh()
        netgen.write_files(files, p)
        before = {n: open(os.path.join(p, "problem", n), "rb").read()
                  for n in sorted(os.listdir(os.path.join(p, "problem")))}
        raw = self.schemas(p, ctx, res)
        again = self.schemas(p, ctx, res) if raw else None
        after = {n: open(os.path.join(p, "problem", n), "rb").read()
                 for n in sorted(os.listdir(os.path.join(p, "problem")))}
        there = sorted(os.listdir(p))
        listed = sorted(os.listdir(os.path.join(p, "schemas"))) if raw else []
        ctx.drop(p)
        if raw is None or again is None:
            return res
        if raw != again or listed != sorted(n + "_schema.json" for n in NAMES):
            res.bad("not-idempotent", "writing the schemas again changes them or "
                    "leaves other files: %s" % listed)
            return res
        if before != after or there != ["problem", "schemas"]:
            res.bad("problem-changed", "the schema command changed the problem: %s"
                    % there)
            return res
        val = {}
        for n in NAMES:
            try:
                s = json.loads(raw[n])
                jsonschema.Draft7Validator.check_schema(s)
                val[n] = jsonschema.Draft7Validator(s)
            except (ValueError, jsonschema.SchemaError) as e:
                res.bad("not-a-schema", "%s: %s" % (n, str(e)[:400]))
                return res

        def first(fs):
            for n in NAMES:
                for e in val[n].iter_errors(fs[n + ".json"]):
                    return "%s: %s at %s" % (n, e.message[:200], list(e.path))
            return None
        e = first(files)
        if e:
            res.bad("consistent-refused", "the schemas refuse a consistent input: "
                    + e)
            return res
        r, wrote = self.runs(files, ctx)
        if r.rc != 0:
            res.skip = "does not run"
            return res
        for m in q["mutations"]:
            fs = copy.deepcopy(files)
            o = get(fs[m["file"] + ".json"], m["path"][:-1])
            k = m["path"][-1]
            if m["kind"] == "missing" and m["file"] == "topology" and \
                    len(m["path"]) == 4:
                dflt = files["problem_data.json"]["problem_data"]["defaults"].get(
                    m["path"][1], {})
                if dflt.get(k, o[k]) != o[k]:
                    res.label("another component's value is the default")
                    continue    # need not have a solution
            if m["kind"] == "missing":
                del o[k]
            elif m["kind"] in ("type", "range"):
                o[k] = m["value"]
            else:
                o["Nosuchtype"] = o.pop(k)
            if m["file"] == "problem_data" and (
                    "start_time" in m["path"] or "end_time" in m["path"] or
                    "retries" in m["path"]) and m["kind"] == "type" and \
                    m["what"] == "a number":
                continue
            e = first(fs)
            r, wrote = self.runs(fs, ctx)
            refused = r.rc != 0
            what = "%s: %s %s%s" % (m["file"], m["kind"], m["path"], " " + m.get(
                "what", ""))
            if e or refused:
                res.nontrivial = q["types"] >= 2
            res.label("%s/%s: %s" % (m["file"], m["kind"],
                                     "refused" if e else "accepted"))
            if e and not refused:
                if m.get("what") == "a boolean":
                    res.label("boolean for a number converted")
                    continue
                res.bad("%s/%s/schema-only" % (m["file"], m["kind"]),
                        "%s: refused by the schema (%s), but it runs" % (what, e))
            elif refused and not e:
                # random loads without a seed may fail by chance
                if any(self.runs(fs, ctx)[0].rc == 0 for _ in range(3)):
                    res.label("failed by chance")
                    continue
                res.bad("%s/%s/program-only" % (m["file"], m["kind"]),
                        "%s: accepted by the schema, but refused by the program: %s"
                        % (what, (r.out + r.err).strip()[-300:]))
            elif refused and wrote:
                res.bad("states-written", what)
        return res


if __name__ == "__main__":
    main(C15())
