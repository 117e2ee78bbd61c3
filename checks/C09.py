import common  # noqa: F401
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import threading
import netgen
import sim
import vlib
import whole
from vlib import Check, Res, main

FROZEN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                      "drivers", "frozen.c")


def tree(p):
    """Everything below p: {relative path: contents, or None for a directory}."""
    res = {}
    for base, dirs, files in os.walk(p):
        r = os.path.relpath(base, p)
        for n in dirs:
            res[os.path.normpath(os.path.join(r, n))] = None
        for n in files:
            with open(os.path.join(base, n), "rb") as f:
                res[os.path.normpath(os.path.join(r, n))] = f.read()
    return res


class C09(Check):
    id = "C09"
    cli = True
    rule = ("a history of at least three runs in one directory, of which at least "
            "two succeed, with runs at the same moment, faults or changed inputs")
    assumptions = [
        "the problem directory is not changed by anyone else while a run is going on",
        "'the same moment' is forced by clocks that stand still or advance in small "
        "steps (preloaded), and by starting runs in parallel, the making of "
        "directories put off; a run may then refuse "
        "to run for want of a name",
        "faults: writing beyond a limit fails or kills the program (RLIMIT_FSIZE)",
        "the results of a successful run are those of a run of the same inputs in a "
        "directory of its own, byte for byte"]
    quick_cases = 1500
    thorough_cases = 30000

    def gen(self, d):
        net = whole.gen_opt(d, max_clusters=1, max_steps=3) if d.bool(0.2) else None
        if net is not None:
            whole.constrain(net, None, None)
            if d.bool(0.5):         # the file of controls is the longest
                net["control_settings"] = {"number_of_steps": d.int(20, 60)}
        else:
            net = sim.mixed(d, max_steps=3, max_clusters=2)
        files = {k: json.dumps(v, indent=d.choice([None, 1]))
                 for k, v in netgen.to_files(net).items()}
        extra = {}
        for n in ("notes.txt", ".hidden", "sub/more.json", "sub/deep/er/x",
                  "initial.json.bak", "output/old.txt", "states.json",
                  "name with blank", "empty/"):
            if d.bool(0.2):
                extra[n] = "" if n.endswith("/") else d.choice(
                    ["", "x", "{\"a\": 1}", "line\n" * 2000])
        # inputs that are links to files kept elsewhere
        links = [k for k in sorted(files) if d.bool(0.5)] if d.bool(0.25) else []
        old = d.bool(0.3)
        ops = []
        for _ in range(d.int(2, 6)):
            k = d.weighted([(4, "run"), (3, "parallel"), (2, "frozen"), (2, "edit"),
                            (1, "break"), (2, "limit"), (1, "kill"), (1, "mend")])
            o = {"op": k}
            if k == "parallel":
                o["n"] = d.int(2, 8)
                o["frozen"] = d.weighted([(2, None), (1, 0), (1, 300000),
                                          (1, 40000)])
                o["wait"] = d.weighted([(1, 0), (1, 20000)])
            if k == "frozen":
                o["n"] = d.int(2, 4)
                o["frozen"] = d.weighted([(2, 0), (1, 1000), (1, 300000)])
            if k in ("parallel", "frozen"):
                o["at"] = d.weighted([(2, 1.7e9), (1, 1.7e9 + 0.999), (1, 86399.0)])
            if k in ("limit", "kill"):
                o["bytes"] = d.weighted([(1, d.int(0, 300)), (2, d.int(0, 6000)),
                                         (1, d.int(0, 40000))])
                # or a share of the longest file it writes
                o["share"] = d.weighted([(1, None), (1, d.float(0.3, 1, 2))])
            if k == "edit":
                o["what"] = d.choice(["note", "initial", "delete note"])
            o["path"] = d.weighted([(4, "plain"), (1, "slash"), (1, "relative"),
                                    (1, "dots")])
            ops.append(o)
        return {"files": files, "optimize": bool(net.get("optimize")), "extra": extra, "old": old, "ops": ops,
                "links": links,
                "tz": d.weighted([(3, ""), (1, "Europe/Berlin"), (1, "America/New_York"),
                                  (1, "UTC-13:45")])}

    def describe(self, q):
        return {"ops": q["ops"], "optimize": q["optimize"], "extra": sorted(q["extra"]), "old": q["old"],
                "links": q["links"], "files": {k: len(v) for k, v in q["files"].items()}}

    # ------------------------------------------------------------ execution
    def preload(self, ctx):
        if not hasattr(self, "_so"):
            self._so = os.path.join(ctx.dir, "frozen.so")
            subprocess.run(["cc", "-O1", "-shared", "-fPIC", "-o", self._so, FROZEN],
                           check=True)
        return self._so

    def start(self, q, ctx, root, o, frozen=None):
        env = dict(os.environ)
        if q["tz"]:
            env["TZ"] = q["tz"]
        if frozen is not None:
            env["LD_PRELOAD"] = self.preload(ctx)
            env["FROZEN"] = repr(o["at"])
            env["FROZEN_STEP"] = str(frozen)
            env["FROZEN_WAIT"] = str(o.get("wait", 0))
        arg, cwd = {"plain": (root, None), "slash": (root + "/", None),
                    "relative": (os.path.basename(root), os.path.dirname(root)),
                    "dots": (root + "/./../" + os.path.basename(root), None)}[
                        o["path"]]

        def pre():
            if o["op"] in ("limit", "kill"):
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (o["bytes"], o["bytes"]))
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if o["op"] == "limit"
                              else signal.SIG_DFL)
        return subprocess.Popen(
            [ctx.bins["grazer"], "run", arg], cwd=cwd, env=env, preexec_fn=pre,
            restore_signals=False, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def finish(self, p):
        try:
            out = p.communicate(timeout=90)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None, ""
        return p.returncode, out.decode("utf8", "replace")

    def results(self, d):
        res = {}
        for n in ("states.json", "controls.json"):
            try:
                with open(os.path.join(d, n), "rb") as f:
                    res[n] = f.read()
            except OSError:
                pass
        return res

    def reference(self, q, ctx, root, cache):
        """(status, states.json, controls.json) of the present inputs in a fresh
        directory."""
        inputs = tree(os.path.join(root, "problem"))
        k = tuple(sorted((n, v) for n, v in inputs.items() if n in q["files"]))
        if k not in cache:
            p = ctx.fresh("ref")
            shutil.copytree(os.path.join(root, "problem"), os.path.join(p, "problem"))
            r = vlib.run_cli(ctx.bins["grazer"], ["run", p],
                             timeout=4 if q["optimize"] else 60)
            o = os.path.join(p, "output")
            st = {}
            if r.rc == 0 and os.path.isdir(o):
                for n in os.listdir(o):
                    st = self.results(os.path.join(o, n))
            cache[k] = (None if r.hang else r.rc, st)
            ctx.drop(p)
        return cache[k]

    def run(self, q, ctx):
        res = Res()
        root = ctx.fresh()
        prob, outp = os.path.join(root, "problem"), os.path.join(root, "output")
        os.makedirs(prob)
        far = ctx.fresh("far") if q.get("links") else None
        for n, t in list(q["files"].items()) + list(q["extra"].items()):
            f = os.path.join(prob, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if not n.endswith("/"):
                if n in q.get("links", []):
                    os.symlink(os.path.join(far, n), f)
                with open(f, "w") as fh:
                    fh.write(t)
        if q["old"]:
            os.makedirs(os.path.join(outp, "2020.01.01_00:00:00.000", "problem"))
            for n in ("2020.01.01_00:00:00.000/states.json", "readme"):
                with open(os.path.join(outp, n), "w") as fh:
                    fh.write("precious")
        cache = {}
        if self.reference(q, ctx, root, cache)[0] is None:
            ctx.drop(root)
            if far:
                ctx.drop(far)
            res.skip = "the run alone takes long"
            return res
        good = runs = special = 0
        for k, o in enumerate(q["ops"]):
            if o["op"] in ("edit", "break", "mend"):
                f = os.path.join(prob, "initial.json")
                if o["op"] == "break":
                    os.truncate(f, max(1, os.path.getsize(f) // 2))
                elif o["op"] == "mend" or o.get("what") == "initial":
                    with open(f, "w") as fh:
                        fh.write(q["files"]["initial.json"] + "\n" * (k + 1))
                elif o["what"] == "note":
                    with open(os.path.join(prob, "notes.txt"), "a") as fh:
                        fh.write("edit %d\n" % k)
                elif os.path.exists(os.path.join(prob, "notes.txt")):
                    os.remove(os.path.join(prob, "notes.txt"))
                special += 1
                continue
            before_p, before_o = tree(prob), tree(outp)
            tops = set(os.listdir(outp)) if os.path.isdir(outp) else set()
            n = o.get("n", 1)
            if o.get("share"):
                st = self.reference(q, ctx, root, cache)[1]
                if st:
                    o = dict(o, bytes=int(o["share"] * max(map(len, st.values()))))
            special += n > 1 or o["op"] in ("limit", "kill")
            if o["op"] == "frozen":
                ends = [self.finish(self.start(q, ctx, root, o, o["frozen"]))
                        for _ in range(n)]
            else:
                ps = [self.start(q, ctx, root, o, o.get("frozen")) for _ in range(n)]
                ends = [None] * n

                def wait(i):
                    ends[i] = self.finish(ps[i])
                ts = [threading.Thread(target=wait, args=(i,)) for i in range(n)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            after_p, after_o = tree(prob), tree(outp)
            what = "operation %d (%s)" % (k, o)
            if after_p != before_p:
                res.bad("inputs-changed", "%s: %s" % (what, [
                    x for x in set(before_p) | set(after_p)
                    if before_p.get(x, 0) != after_p.get(x, 0)][:5]))
                break
            lost = [x for x in before_o if x not in after_o or
                    after_o[x] != before_o[x]]
            grown = [x for x in after_o if x not in before_o and
                     x.split(os.sep)[0] in tops]
            if lost or grown:
                res.bad("earlier-results", "%s: earlier results changed: %s" % (
                    what, (lost + grown)[:5]))
                break
            others = sorted(set(os.listdir(root)) - {"problem", "output"})
            if others:
                res.bad("elsewhere", "%s: wrote %s" % (what, others))
                break
            new = sorted((set(os.listdir(outp)) if os.path.isdir(outp) else set())
                         - tops)
            rc_ref, st_ref = self.reference(q, ctx, root, cache)
            if rc_ref is None:
                ctx.drop(root)
                res.skip = "the run alone takes long"
                return res
            named = []
            stop = False
            for rc, out in ends:
                runs += 1
                if rc is None or (rc not in (0, 1) and not (
                        o["op"] == "kill" and rc == -signal.SIGXFSZ)):
                    res.bad("crash", "%s: status %s: %s" % (what, rc, out[-300:]))
                    stop = True
                    continue
                m = re.search(r"Using output directory\n(.*)\n", out)
                mine = os.path.basename(m.group(1).rstrip("/")) if m else None
                if mine:
                    named.append(mine)
                if rc != 0:
                    if o["op"] not in ("limit", "kill") and rc_ref == 0 and (
                            "unique output directory" not in out):
                        res.bad("fails", "%s: %s" % (what, out[-300:]))
                        stop = True
                    continue
                good += 1
                if rc_ref != 0:
                    res.bad("succeeds", "%s: success, but alone the inputs fail"
                            % what)
                    stop = True
                    continue
                cand = [mine] if mine in new else new if n == 1 else []
                if not cand:
                    res.bad("no-directory", "%s: no new directory of its own: %s, new: "
                            "%s" % (what, mine, new))
                    stop = True
                    continue
                d = os.path.join(outp, cand[0])
                if len(cand) != 1:
                    res.bad("directories", "%s: one run made %s" % (what, new))
                    stop = True
                t = tree(os.path.join(d, "problem"))
                if t != before_p:
                    res.bad("archive", "%s: archived copy differs in %s" % (what, [
                        x for x in set(before_p) | set(t)
                        if before_p.get(x, 0) != t.get(x, 0)][:5]))
                    stop = True
                st = self.results(d)
                if st != st_ref:
                    res.bad("results", "%s: bytes of results %s, alone %s" % (
                        what, {x: len(v) for x, v in st.items()},
                        {x: len(v) for x, v in st_ref.items()}))
                    stop = True
                elif len(st) == 2:
                    res.label("controls")
                elif "states.json" not in st or q["optimize"]:
                    res.bad("no-results", "%s: success, results: %s" % (
                        what, sorted(st)))
                    stop = True
            ok = sum(1 for rc, _ in ends if rc == 0)
            if len(set(named)) != len(named) or len(new) < ok or len(new) > n:
                res.bad("shared", "%s: %d runs, %d successes, new directories %s, "
                        "named %s" % (what, n, ok, new, named))
                stop = True
            res.label(o["op"])
            if o["op"] in ("limit", "kill") and ends[0][0] != 0:
                res.label(o["op"] + " cut short")
            if n > 1 and ok < n and rc_ref == 0:
                res.label("no name found")
            if stop:
                break
        ctx.drop(root)
        if far:
            ctx.drop(far)
        res.nontrivial = runs >= 3 and good >= 2 and special >= 1
        return res


if __name__ == "__main__":
    main(C09())
