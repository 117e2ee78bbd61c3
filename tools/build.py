#!/usr/bin/env python3
"""Builds grazer (all of it, the command line program included) from the
current working tree of /repo into /verif/build, outside /repo.

build(flavour, drivers) -> {"grazer": path, "<driver>": path, ...}

The sources are compiled in a few combined translation units, because nearly
all of the compile time is repeated template instantiation; if a combined unit
does not compile, its files are compiled one by one.  Nothing here depends on
what an earlier run left behind; what is there and still matches (by the
content of every file it was made from) is used again.
"""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GRAZER_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CHUNKS = 16
JOBS = 8

# Never part of the program: the project's own build leaves them out too.
NOT_BUILT = {"EquationDerivativeCache.cpp", "Costgradienthandler.cpp", "optimize.cpp"}

COMMON = [
    "-std=c++17", "-DHAVE_CSTDDEF", "-DGRAZER_VERSION=verif",
    "-D_GLIBCXX_ASSERTIONS", "-w",
    "-I" + os.path.join(VERIF, "shim"),
    "-isystem", "/usr/include/eigen3",
    "-isystem", "/opt/vp/ipopt/include/coin-or",
    # Ipopt 3.11.9 (installed here) has no SetBoolValue.
    '-DSetBoolValue(a,b)=SetStringValue(a,(b)?"yes":"no")',
]
FLAVOURS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=undefined,float-cast-overflow",
             "-fno-sanitize=vptr"],
}
LINK = ["-L/opt/vp/ipopt/lib", "-lipopt", "-lpthread", "-lstdc++fs"]


class BuildError(Exception):
    pass


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def sources():
    listed = {}
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and f not in NOT_BUILT:
                res.append(os.path.join(root, f))
    return res


def include_dirs():
    res = []
    for top in ("src", "Randutils"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            if os.path.basename(root) == "include":
                res.append("-I" + root)
    return res


def chunked(files):
    """Deterministic balanced split; files of one directory are spread out."""
    chunks = [[] for _ in range(CHUNKS)]
    load = [0] * CHUNKS
    for f in sorted(files, key=lambda f: (-os.path.getsize(f) - 9000, f)):
        d = os.path.dirname(f)
        free = [i for i in range(CHUNKS)
                if all(os.path.dirname(g) != d for g in chunks[i])]
        cand = free or range(CHUNKS)
        i = min(cand, key=lambda i: (load[i], i))
        chunks[i].append(f)
        load[i] += os.path.getsize(f) + 9000
    return [c for c in chunks if c]


def read_deps(path):
    with open(path) as f:
        txt = f.read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [p for p in re.split(r"(?<!\\)\s+", txt.strip()) if p]


def compile_one(src, obj, flags):
    """Compile src -> obj unless an up-to-date object is there."""
    cmd = ["g++"] + flags + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    meta = obj + ".json"
    try:
        with open(meta) as f:
            m = json.load(f)
        if m["cmd"] == cmd and os.path.exists(obj) and all(
                sha(p) == h for p, h in m["deps"].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return r.stderr[-4000:]
    deps = {p: sha(p) for p in read_deps(obj + ".d")
            if not p.startswith("/usr/")}
    with open(meta, "w") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    return None


HELPER_DIR = os.path.join(REPO, "helper_functions")


def helper_sources(name):
    """The file of a helper program (its name as the project builds it)."""
    try:
        with open(os.path.join(HELPER_DIR, "CMakeLists.txt")) as f:
            m = re.search(r"add_executable\(\s*%s\s+([^)]*)\)" % re.escape(name),
                          f.read())
        if m:
            return [os.path.join(HELPER_DIR, x) for x in m.group(1).split()
                    if x.endswith(".cpp")]
    except OSError:
        pass
    return [os.path.join(HELPER_DIR, name + ".cpp")]


def build(flavour="plain", drivers=(), cli=True, quiet=False, helpers=()):
    t0 = time.time()
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    flags = FLAVOURS[flavour] + COMMON + include_dirs()
    chunks = chunked(sources())
    main_src = None
    jobs = []       # (src, obj, flags, fallback list)
    objs = []
    for i, c in enumerate(chunks):
        body = ""
        for f in c:
            if os.path.basename(f) == "grazer.cpp":
                main_src = f
                continue
            body += '#include "%s"\n' % f
        if not body:
            continue
        u = os.path.join(out, "unit%02d.cpp" % i)
        old = None
        if os.path.exists(u):
            with open(u) as fh:
                old = fh.read()
        if old != body:
            with open(u, "w") as fh:
                fh.write(body)
        jobs.append((u, u[:-4] + ".o", flags,
                     [f for f in c if os.path.basename(f) != "grazer.cpp"]))
    extra = []
    if cli:
        if main_src is None:
            raise BuildError("no grazer.cpp found")
        extra.append((main_src, os.path.join(out, "main.o"), flags, None))
    for d in drivers:
        extra.append((os.path.join(VERIF, "drivers", d + ".cpp"),
                      os.path.join(out, "drv_" + d + ".o"),
                      flags + ["-I" + os.path.join(VERIF, "drivers")], None))
    helper_objs = {}
    for h in helpers:
        for i, src in enumerate(helper_sources(h)):
            o = os.path.join(out, "help_%s_%d.o" % (h, i))
            helper_objs.setdefault(h, []).append(o)
            extra.append((src, o, flags + ["-I" + HELPER_DIR], None))

    def work(job):
        src, obj, fl, fallback = job
        err = compile_one(src, obj, fl)
        if err is None:
            return [obj]
        if fallback is None:
            raise BuildError("%s:\n%s" % (src, err))
        res = []
        for f in fallback:
            o = os.path.join(
                out, "f_" + hashlib.sha1(f.encode()).hexdigest()[:12] + ".o")
            err = compile_one(f, o, fl)
            if err is not None:
                raise BuildError("%s:\n%s" % (f, err))
            res.append(o)
        return res

    # the big ones first
    order = sorted(extra + jobs, key=lambda j: 0 if j[3] is None else 1)
    with ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(work, order))
    for j, o in zip(order, done):
        if j[3] is not None:
            objs += o
    result = {}
    links = []
    if cli:
        links.append(("grazer", [os.path.join(out, "main.o")]))
    for d in drivers:
        links.append((d, [os.path.join(out, "drv_" + d + ".o")]))
    for h in helpers:
        links.append((h, helper_objs[h]))
    sanit = [f for f in FLAVOURS[flavour] if f.startswith("-f")]
    san = [f for f in sanit if "sanitize" in f]

    def link(item):
        name, o = item
        exe = os.path.join(out, "bin_" + name)
        key = hashlib.sha256("".join(
            str(sha(x)) for x in o + sorted(objs)).encode()).hexdigest()
        kf = exe + ".key"
        if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key:
            return name, exe
        tmp = exe + ".tmp"
        r = subprocess.run(["g++"] + san + o + objs + ["-o", tmp] + LINK,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link %s:\n%s" % (name, r.stderr[-4000:]))
        os.replace(tmp, exe)
        with open(kf, "w") as f:
            f.write(key)
        return name, exe

    with ThreadPoolExecutor(JOBS) as ex:
        for name, exe in ex.map(link, links):
            result[name] = exe
    fcntl.flock(lock, fcntl.LOCK_UN)
    lock.close()
    if not quiet:
        print("build %s: %.1f s" % (flavour, time.time() - t0), flush=True)
    return result


if __name__ == "__main__":
    fl = sys.argv[1] if len(sys.argv) > 1 else "plain"
    try:
        print(build(fl, sys.argv[2:]))
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        sys.exit(2)
