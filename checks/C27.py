import datetime
import json
import os
import common  # noqa: F401
from vlib import Check, Res, main

PARTS = ["a", "b", "..", ".", "...", "..a", "c.json", "", "a b", "problem", "\u00e4"]


def normal(parts, absolute):
    """The components a path stands for; leading ".." kept if relative."""
    r = []
    for p in parts:
        if p in ("", "."):
            continue
        if p == ".." and r and r[-1] != "..":
            r.pop()
        elif p == ".." and absolute:
            continue
        else:
            r.append(p)
    return r


def inside(root, file):
    if file.startswith("/"):
        full, absolute = file, True
        if not root.startswith("/"):
            return None         # depends on the working directory
    else:
        full, absolute = root + "/" + file, root.startswith("/")
        if root == "":
            full = file
    r = normal(root.split("/"), root.startswith("/"))
    f = normal(full.split("/"), absolute)
    return f[:len(r)] == r and not (len(f) > len(r) and f[len(r)] == "..")


class C27(Check):
    id = "C27"
    drivers = ("basics",)
    rule = ("a path with a dot, double separator or trailing separator; times of "
            "differing order; a file read from the problem directory; a taken name")
    assumptions = [
        "paths are judged as written (no symbolic links); a relative root with an "
        "absolute file name depends on the working directory and is left out",
        "times from 1970 to 2100 in UTC; in a zone with summer time the names "
        "of one hour a year repeat, which is not judged"]
    quick_cases = 30000
    thorough_cases = 800000

    def gen(self, d):
        kind = d.weighted([(4, "path"), (3, "stamp"), (2, "embed"), (1, "unique")])
        if kind == "path":
            def p():
                s = "/".join(d.choice(PARTS) for _ in range(d.int(1, 6)))
                return s
            root = p()
            if d.bool(0.6):
                root = "/" + root
            if d.bool(0.3):
                root += "/"
            f = p()
            if d.bool(0.15):
                f = "/" + f
            if d.bool(0.2):
                f += "/"
            if d.bool(0.2):
                f = root + "/" + f
            return {"kind": kind, "root": root, "file": f}
        if kind == "stamp":
            t0 = d.weighted([(2, 1700000000), (1, 0), (1, 951782399), (1, 1735689599),
                             (1, 4102444799)]) * 10 ** 9
            if d.bool(0.5):
                t0 = d.raw(4102444800) * 10 ** 9
            ts = []
            for _ in range(d.int(2, 5)):
                ts.append(t0)
                t0 += d.weighted([(2, 10 ** 6), (1, 10 ** 9), (1, 9 * 10 ** 6),
                                  (1, 93 * 10 ** 6), (1, 60 * 10 ** 9),
                                  (1, 86400 * 10 ** 9)]) * d.int(1, 9) + d.raw(999999)
            return {"kind": kind, "ns": ts}
        if kind == "embed":
            depth = d.int(0, 2)
            name = "/".join([d.choice(["sub", "x y", "..", "."])
                             for _ in range(depth)] + [d.choice(["t.json", "u", "t.json"])])
            return {"kind": kind, "name": name, "absolute": d.bool(0.4),
                    "as_object": d.bool(0.2), "missing": d.bool(0.15),
                    "broken": d.bool(0.1), "trailing": d.bool(0.3),
                    "content": {"v": d.raw(1000), "w": [d.float(0, 1)]}}
        n = d.int(1, 25)
        return {"kind": kind, "taken": d.int(0, n), "n": n, "cwd": d.bool(0.5)}

    def run(self, case, ctx):
        res = Res()
        k = case["kind"]
        res.label(k)
        drv = ctx.driver("basics")
        if k == "path":
            want = inside(case["root"], case["file"])
            if want is None:
                res.skip = "depends on the working directory"
                return res
            if case["root"] == "":
                res.skip = "empty root"
                return res
            r = drv.call({"op": "path", **case})
            if "error" in r:
                res.bad("refused", "%r: %s" % (case, r["error"]))
                return res
            res.label("inside" if want else "outside")
            if r["in"] != want:
                res.bad("inside", "root %r, file %r: reported %s" % (
                    case["root"], case["file"], "inside" if r["in"] else "outside"))
            s = case["root"] + "/" + case["file"]
            res.nontrivial = ".." in s or "//" in s or "/." in s or s[-1] == "/"
        elif k == "stamp":
            r = drv.call({"op": "stamp", "ns": case["ns"]})
            if "error" in r:
                res.bad("refused", r["error"])
                return res
            res.nontrivial = True
            ss = r["s"]
            for t, s in zip(case["ns"], ss):
                w = datetime.datetime(1970, 1, 1) + datetime.timedelta(
                    seconds=t // 10 ** 9)
                want = w.strftime("%Y.%m.%d_%H:%M:%S") + ".%03d" % (
                    t % 10 ** 9 // 10 ** 6)
                if s != want:
                    res.bad("stamp", "time %d ns gives %r, is %r" % (t, s, want))
                    return res
            if ss != sorted(ss) or len(set(map(len, ss))) != 1:
                res.bad("order", "%r for increasing times" % ss)
        elif k == "embed":
            base = ctx.fresh("prob")
            try:
                root = os.path.join(base, "r1", "problem")
                os.makedirs(os.path.join(root, "sub"))
                os.makedirs(os.path.join(root, "x y"))
                for dp in ("sub/sub", "sub/x y", "x y/sub", "x y/x y"):
                    os.makedirs(os.path.join(root, dp), exist_ok=True)
                target = os.path.join(root, case["name"])
                os.makedirs(os.path.dirname(target), exist_ok=True)
                if not case["missing"]:
                    with open(target, "w") as f:
                        f.write(json.dumps(case["content"]) if not case["broken"]
                                else json.dumps(case["content"])[:-2])
                # a decoy with this name where a wrong directory would find it
                for other in (ctx.dir, base):
                    p = os.path.join(other, os.path.basename(case["name"]))
                    if os.path.realpath(p) != os.path.realpath(target):
                        with open(p, "w") as f:
                            f.write('{"decoy": 1}')
                sup = {"GRAZER_file_directory": root + (
                    "/" if case["trailing"] else ""), "other": [1, {"a": 2}]}
                if case["as_object"]:
                    sup["k"] = case["content"]
                elif case["absolute"]:
                    sup["k"] = target
                else:
                    sup["k"] = case["name"]
                r = drv.call({"op": "embed", "super": sup, "key": "k"})
                bad = (case["missing"] or case["broken"]) and not case["as_object"]
                res.nontrivial = not case["as_object"]
                if bad:
                    if "error" not in r:
                        res.bad("embed-accepted", "%r gives %r" % (case, r))
                elif "error" in r:
                    res.bad("embed-refused", "%r: %s" % (case, r["error"]))
                else:
                    want = dict(sup)
                    want["k"] = case["content"]
                    if r["super"] != want:
                        res.bad("embed", "%r gives %r" % (sup, r["super"]))
            finally:
                for other in (ctx.dir,):
                    p = os.path.join(other, os.path.basename(case["name"]))
                    if os.path.exists(p):
                        os.unlink(p)
                ctx.drop(base)
        else:
            base = ctx.fresh("uniq")
            try:
                names = ["d%02d" % i for i in range(case["n"])]
                for nme in names[:case["taken"]]:
                    os.mkdir(os.path.join(base, nme))
                r = drv.call({"op": "unique", "outer": base, "names": names})
                res.nontrivial = case["taken"] > 0
                free = case["taken"] < case["n"] and case["taken"] < 20
                if free:
                    want = os.path.join(base, names[case["taken"]])
                    if r.get("made") != want or not os.path.isdir(want):
                        res.bad("unique", "%d of %d names taken: %r" % (
                            case["taken"], case["n"], r))
                elif "made" in r and case["taken"] == case["n"]:
                    res.bad("taken", "all names taken: %r" % r)
            finally:
                ctx.drop(base)
        return res


if __name__ == "__main__":
    main(C27())
