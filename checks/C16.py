import common  # noqa: F401
import json
import os
import pwd
import resource
import signal
import subprocess
from vlib import Check, Res, main, CliResult

NAMES = ("boundary", "control", "initial", "topology", "problem_data")


def key(d):
    return d.weighted([
        (3, lambda: d.choice(["id", "data", "nodes", "connections", "values", "x",
                              "Pipe", "$ref", "schema", "$schem", "0", "", " "])),
        (1, lambda: text(d))])()


def text(d):
    return "".join(chr(d.weighted([
        (6, d.int(32, 126)), (1, d.int(0, 31)), (1, d.int(0xa0, 0x2fff)),
        (1, d.int(0x1f300, 0x1f5ff)), (1, 0x7f), (1, 0xfffd)]))
        for _ in range(d.int(0, 8)))


def value(d, depth=0):
    k = d.weighted([(3, "int"), (3, "float"), (2, "str"), (1, "bool"), (1, "null"),
                    (2 if depth < 5 else 0, "arr"), (3 if depth < 5 else 0, "obj"),
                    (1 if depth == 0 else 0, "deep")])
    if k == "int":
        return d.weighted([(3, d.int(-100, 100)), (1, d.int(-2 ** 63, 2 ** 63 - 1)),
                           (1, 2 ** 64 - 1), (1, -2 ** 63), (1, 2 ** 53 + 1)])
    if k == "float":
        return d.weighted([(2, d.float(-1000, 1000, 3)), (2, d.float(-1, 1)),
                           (1, d.float(-1, 1) * 10.0 ** d.int(-300, 300)),
                           (1, 5e-324), (1, 1.7976931348623157e308), (1, -0.0),
                           (1, 1e22), (1, 0.1 + 0.2), (1, 3.0)])
    if k == "str":
        return text(d)
    if k == "bool":
        return d.bool()
    if k == "null":
        return None
    if k == "arr":
        return [value(d, depth + 1) for _ in range(d.int(0, 5))]
    if k == "deep":
        v = 1.5
        for _ in range(d.int(5, 60)):
            v = [v] if d.bool() else {"d": v}
        return v
    return obj(d, depth + 1)


def obj(d, depth=0, hi=5):
    return {key(d): value(d, depth) for _ in range(d.int(0, hi))}


def pairs(s):
    """Parsed json in which objects are lists of pairs, so that order and
    repetitions count."""
    return json.loads(s, object_pairs_hook=lambda p: ("object", p))


def norm(x):
    """Comparable form that tells 1 from 1.0 and true."""
    if isinstance(x, tuple):
        return ("object", [(k, norm(v)) for k, v in x[1]])
    if isinstance(x, list):
        return [norm(v) for v in x]
    if isinstance(x, float):
        return ("float", repr(x))
    return (type(x).__name__, x)


class C16(Check):
    id = "C16"
    cli = True
    rule = ("at least two files with a schema, one of them with nested contents, "
            "and for faults a run that was really cut short")
    assumptions = [
        "integers fit into 64 bits and keys are not repeated within an object",
        "faults: writing beyond a limit fails or kills the program (RLIMIT_FSIZE, "
        "with SIGXFSZ ignored or not); a directory that the program, run as the "
        "unprivileged user nobody, may not write",
        "a file that is missing although its schema exists is created"]
    quick_cases = 4000
    thorough_cases = 80000

    def gen(self, d):
        files = {}
        for n in NAMES:
            if d.bool(0.15):
                continue
            o = obj(d)
            if d.bool(0.2):    # large
                o["data"] = [{"time": 1.5 * i, "values": [d.float(0, 99, 3)]}
                             for i in range(d.int(50, 400))]
            if d.bool(0.35):   # tagged before
                it = list(o.items())
                it.insert(d.raw(len(it)), ("$schema", d.choice([
                    "../schemas/%s_schema.json" % n, "old.json", "", 5, None])))
                o = dict(it)
            t = json.dumps(o, ensure_ascii=d.bool(0.5),
                           indent=d.choice([None, 1, 4]))
            if d.bool(0.06):
                t = d.choice(["", "{", "[1,2]", "5", "null", "\"x\"",
                              t[:len(t) // 2]])
            files[n + ".json"] = t
        for n in ("lower_bounds.json", "tmp_backup", "notes.txt",
                  "topology.json.tmp0", "topology.json.bak"):
            if d.bool(0.15):
                files[n] = "{\"x\": 1.50}"
        schemas = [n for n in NAMES if d.bool(0.85)]
        fault = d.weighted([(5, None), (3, "limit"), (2, "kill"), (1, "readonly")])
        sizes = sorted(len(t.encode()) for t in files.values()) or [10]
        lim = d.weighted([(2, d.int(0, 60)), (3, d.int(0, 2 * sizes[-1] + 50))])
        return {"files": files, "schemas": schemas, "fault": fault, "limit": lim,
                "links": [n for n in sorted(files) if d.bool(0.08)],
                "modes": {n: d.choice([0o600, 0o640, 0o664, 0o604])
                          for n in sorted(files) if d.bool(0.15)}}

    def describe(self, q):
        r = dict(q)
        r["files"] = {k: v[:200] for k, v in q["files"].items()}
        return r

    def nobody_can(self, ctx):
        if not hasattr(self, "_can"):
            try:
                self._can = self.call(ctx, "--help", "readonly").rc == 0
            except (OSError, subprocess.SubprocessError, KeyError):
                self._can = False
        return self._can

    def call(self, ctx, p, fault=None, limit=0):
        def pre():
            if fault in ("limit", "kill"):
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if fault == "limit"
                              else signal.SIG_DFL)
            if fault == "readonly":
                n = pwd.getpwnam("nobody")
                os.setgroups([])
                os.setgid(n.pw_gid)
                os.setuid(n.pw_uid)
        try:
            r = subprocess.run([ctx.bins["grazer"], "schema", "insert-key", p],
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60,
                               preexec_fn=pre, restore_signals=False)
            return CliResult(r.returncode, r.stdout.decode("utf8", "replace"),
                             r.stderr.decode("utf8", "replace"))
        except subprocess.TimeoutExpired:
            return CliResult(-9, "", "", True)

    def contents(self, p):
        res = {}
        q = os.path.join(p, "problem")
        for n in sorted(os.listdir(q)) if os.path.isdir(q) else []:
            with open(os.path.join(q, n), "rb") as f:
                res[n] = f.read()
        return res

    def want(self, n, t):
        """Parsed contents of the tagged file, None if it must be refused."""
        ref = ("$schema", "../schemas/%s_schema.json" % n)
        if t is None:
            return ("object", [ref])
        try:
            o = pairs(t)
        except ValueError:
            return None
        if o is None:
            return ("object", [ref])
        if not isinstance(o, tuple):
            return None
        return ("object", [ref] + [(k, v) for k, v in o[1] if k != "$schema"])

    def run(self, q, ctx):
        res = Res()
        p = ctx.fresh()
        os.makedirs(os.path.join(p, "problem"))
        os.makedirs(os.path.join(p, "schemas"))
        for n, t in q["files"].items():
            f = os.path.join(p, "problem", n)
            if n in q["links"]:
                os.makedirs(os.path.join(p, "shared"), exist_ok=True)
                os.symlink(os.path.join("..", "shared", "common_" + n), f)
            with open(f, "wb") as fh:
                fh.write(t.encode("utf8"))
            os.chmod(f, q["modes"].get(n, 0o644))
        for n in q["schemas"]:
            with open(os.path.join(p, "schemas", n + "_schema.json"), "w") as f:
                f.write("{}")
        old = self.contents(p)
        fault = q["fault"]
        if fault == "readonly":
            os.chmod(ctx.dir, 0o755)
            if not self.nobody_can(ctx):
                res.skip = "nobody cannot run the program here"
                ctx.drop(p)
                return res
        r = self.call(ctx, p, fault, q["limit"])
        new = self.contents(p)
        want = {n + ".json": self.want(n, q["files"].get(n + ".json"))
                for n in q["schemas"]}
        for n in q["files"]:
            f = os.path.join(p, "problem", n)
            if n in q["links"] and not os.path.islink(f):
                res.bad("link", "%s was a link and is none any more" % n)
            if os.path.exists(f) and \
                    os.stat(f).st_mode & 0o7777 != q["modes"].get(n, 0o644):
                res.bad("mode", "%s has new permissions %o" % (
                    n, os.stat(f).st_mode & 0o7777))
        cut = self.judge(q, r, old, new, want, res)
        if fault is None and res.fail is None:
            r2 = self.call(ctx, p)
            again = self.contents(p)
            if r2.rc == r.rc and again != new or r2.rc != r.rc:
                res.bad("not-idempotent", "applied twice: status %s then %s, files "
                        "that differ: %s" % (r.rc, r2.rc, [
                            n for n in set(new) | set(again)
                            if new.get(n) != again.get(n)]))
        ctx.drop(p)
        nested = any(w and any(isinstance(v, (list, tuple)) for _, v in w[1])
                     for w in want.values())
        res.nontrivial = len(q["schemas"]) >= 2 and nested and (
            fault is None or cut)
        res.label("fault: %s%s" % (fault, " (cut short)" if fault and cut else ""))
        return res

    def judge(self, q, r, old, new, want, res):
        """Returns whether the command ended early."""
        fault = q["fault"]
        if r.hang:
            res.bad("hang", "no end")
            return False
        killed = fault == "kill" and r.rc == -signal.SIGXFSZ
        if r.crashed and not killed:
            res.bad("crash", "status %s: %s" % (r.rc, r.err[-400:]))
            return False
        refused = [n for n, w in want.items() if w is None]
        if r.rc == 0 and refused:
            res.bad("made-up", "success, although %s is no json object" % refused)
            return False
        if r.rc != 0 and not refused and fault is None:
            res.bad("fails", "status %s: %s" % (r.rc, (r.out + r.err)[-400:]))
            return False
        if r.rc not in (0, 1) and not killed:
            res.bad("status", "status %s" % r.rc)
        tagged = set()
        for n in set(old) | set(new):
            a, b = old.get(n), new.get(n)
            if n not in want or want[n] is None:
                if a is None:     # left by an interrupted write
                    if killed:
                        continue
                    res.bad("litter", "a new file %s" % n)
                elif a != b:
                    res.bad("other-changed", "%s changed, though it %s" % (
                        n, "must be refused" if n in want else "has no schema"))
                continue
            if a == b:
                try:
                    if a is not None and norm(pairs(b)) == norm(want[n]):
                        tagged.add(n)
                except ValueError:
                    pass
                continue
            try:
                got = pairs((b or b"").decode("utf8"))
            except ValueError as e:
                res.bad("damaged", "%s: neither the old nor the new contents (%s, "
                        "%d bytes)" % (n, e, len(b or b"")))
                return False
            if norm(got) != norm(want[n]):
                res.bad("changed", "%s: %s became %s" % (
                    n, str((a or b"")[:300]), str(b[:300])))
                return False
            tagged.add(n)
        if r.rc == 0 and tagged != set(want):
            res.bad("not-reported" if fault else "not-tagged",
                    "success, but %s is not tagged" % sorted(set(want) - tagged))
        return r.rc != 0


if __name__ == "__main__":
    main(C16())
