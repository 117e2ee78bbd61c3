"""Property-based testing engine shared by all checks.

A case is made from a sequence of integer choices (class Draw).  The same
sequence always gives the same case, so a failing case is shrunk by shrinking
its choice sequence (deleting blocks, lowering numbers) and re-running the
generator, and it is stored in its replay file as that sequence together with
the case it stands for.

Case i of a run uses the random stream "<seed>:<property>:<i>", so what is
explored does not depend on the number of worker processes.
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import queue
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402

WORKERS = 8


# --------------------------------------------------------------- generation
class Draw:
    def __init__(self, rng=None, choices=None):
        self.rng = rng
        self.replay = choices
        self.pos = 0
        self.choices = []

    def raw(self, n):
        """An integer in 0..n (inclusive); 0 is the simplest."""
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = max(0, min(int(v), n))
        else:
            v = self.rng.randint(0, n)
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.raw(hi - lo)

    def bool(self, p=0.5):
        # False is the simplest
        return self.raw(999) >= 1000 * (1 - p)

    def choice(self, xs):
        return xs[self.raw(len(xs) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        tot = sum(w for w, _ in pairs)
        k = self.raw(tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def float(self, lo, hi, digits=None):
        """Uniform in [lo, hi]; shrinks towards lo and towards few digits."""
        if digits is None:
            digits = self.weighted([(2, 2), (2, 4), (1, 7)])
        n = 10 ** digits
        k = self.raw(n)
        return lo + (hi - lo) * (k / n)

    def log(self, lo, hi):
        return math.exp(self.float(math.log(lo), math.log(hi), 4))

    def list(self, n_lo, n_hi, f):
        return [f() for _ in range(self.int(n_lo, n_hi))]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            # 0 keeps the element in place, which is the simplest
            j = i - self.raw(i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def sample(self, xs, k):
        xs = list(xs)
        res = []
        for _ in range(k):
            res.append(xs.pop(self.raw(len(xs) - 1)))
        return res


# ------------------------------------------------------------- C++ drivers
class Crash(Exception):
    """The code under test died (signal, abort, failed assertion, sanitizer)."""


class Hang(Exception):
    pass


class Driver:
    """A C++ driver process: one JSON request per line, one JSON answer."""

    def __init__(self, exe, env=None, cwd=None, timeout=120):
        self.exe = exe
        self.env = env
        self.cwd = cwd
        self.timeout = timeout
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, env=self.env, cwd=self.cwd, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
                self.err.close()
            except OSError:
                pass
            self.p = None

    def _errtext(self):
        self.err.seek(0, 2)
        n = self.err.tell()
        self.err.seek(max(0, n - 3000))
        return self.err.read().decode("utf8", "replace")

    def call(self, req, timeout=None):
        import select
        if self.p is None:
            self.start()
        data = (json.dumps(req) + "\n").encode()
        try:
            self.p.stdin.write(data)
        except (BrokenPipeError, OSError):
            pass
        deadline = time.time() + (timeout or self.timeout)
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = deadline - time.time()
            r = left > 0 and select.select([fd], [], [], left)[0]
            if not r:
                self.stop()
                raise Hang("no answer within %s s" % (timeout or self.timeout))
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                rc = self.p.wait()
                txt = self._errtext()
                self.stop()
                raise Crash("driver ended (status %s): %s" % (rc, txt[-1500:]))
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


class CliResult:
    def __init__(self, rc, out, err, hang=False):
        self.rc, self.out, self.err, self.hang = rc, out, err, hang

    @property
    def crashed(self):
        return self.rc < 0 or self.rc > 128 or "Sanitizer" in self.err or \
            "runtime error:" in self.err


def run_cli(exe, args, cwd=None, timeout=60, env=None):
    try:
        r = subprocess.run([exe] + args, cwd=cwd, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=env)
        return CliResult(r.returncode, r.stdout.decode("utf8", "replace"),
                         r.stderr.decode("utf8", "replace"))
    except subprocess.TimeoutExpired as e:
        return CliResult(-9, (e.stdout or b"").decode("utf8", "replace"),
                         (e.stderr or b"").decode("utf8", "replace"), True)


# ------------------------------------------------------------------ results
class Res:
    """Outcome of one case."""

    def __init__(self):
        self.fail = None        # message
        self.key = None         # stable name of what failed
        self.nontrivial = False
        self.labels = []
        self.skip = None        # reason; the case decided nothing
        self.findings = []      # (key, msg) of every oracle that failed

    def bad(self, key, msg):
        self.findings.append((key, str(msg)[:1500]))
        if self.fail is None:
            self.fail = str(msg)[:3000]
            self.key = key

    def label(self, *names):
        for n in names:
            if n not in self.labels:
                self.labels.append(n)


class Ctx:
    """What a worker has: binaries, drivers and a scratch directory."""

    def __init__(self, bins, opts):
        self.bins = bins
        self.opts = opts
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self._drivers = {}
        self.n = 0

    def driver(self, name, timeout=120):
        if name not in self._drivers:
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0"
            env["UBSAN_OPTIONS"] = "print_stacktrace=0"
            self._drivers[name] = Driver(self.bins[name], cwd=self.dir,
                                         env=env, timeout=timeout)
        return self._drivers[name]

    def fresh(self, name="case"):
        """An empty directory."""
        self.n += 1
        p = os.path.join(self.dir, "%s%d" % (name, self.n))
        os.makedirs(p)
        return p

    def drop(self, p):
        assert p.startswith(self.dir + "/")
        shutil.rmtree(p, ignore_errors=True)

    def close(self):
        for d in self._drivers.values():
            d.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


class Check:
    """Base class of a check."""
    id = None
    drivers = ()
    cli = False
    helpers = ()            # programs of /repo/helper_functions
    flavour = "plain"
    rule = ""
    assumptions = []
    quick_cases = 1000
    thorough_cases = 20000
    quick_s = 25            # no new case is started after that many seconds
    thorough_s = 600
    case_timeout = 120
    min_nontrivial = 2      # fewer than that many: the check is broken

    def gen(self, d):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def describe(self, case):
        return case

    def fixed_cases(self):
        """Cases that are always run first."""
        return []


def run_case(check, case, ctx):
    """Runs one case; a death or a hang of the code under test is a failure."""
    try:
        return check.run(case, ctx)
    except Crash as e:
        r = Res()
        r.nontrivial = True
        r.bad("crash", e)
        return r
    except Hang as e:
        r = Res()
        r.nontrivial = True
        r.bad("hang", e)
        return r
    except (TypeError, KeyError, IndexError, ValueError, AttributeError,
            ArithmeticError):
        # An answer of a shape or kind no right answer has.
        r = Res()
        r.nontrivial = True
        r.bad("unreadable", "the results cannot be judged: " +
              " | ".join(traceback.format_exc().strip().splitlines()[-4:]))
        return r


def case_of(check, rng=None, choices=None):
    d = Draw(rng, choices)
    return check.gen(d), d.choices


def _worker(check, bins, opts, seed, wid, nw, total, stop_at, q, stopflag):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx(bins, opts)
    try:
        fixed = check.fixed_cases()
        for i in range(wid, total, nw):
            if time.time() > stop_at or stopflag.value:
                break
            try:
                if i < len(fixed):
                    case, choices = fixed[i], None
                else:
                    rng = random.Random("%s:%s:%s" % (seed, check.id, i))
                    case, choices = case_of(check, rng)
                res = run_case(check, case, ctx)
                h = hashlib.sha1(json.dumps(
                    case, sort_keys=True, default=str).encode()).hexdigest()
                q.put(("case", i, h, res.nontrivial, res.labels, res.skip,
                       res.findings, choices,
                       case if (i < 40 or res.findings) else None))
            except Exception:
                q.put(("error", i, traceback.format_exc()))
                break
    finally:
        ctx.close()
        q.put(("done", wid))


def shrink(check, choices, key, ctx,
           budget=float(os.environ.get("VERIF_SHRINK", "60"))):
    """Smallest choice sequence found that still fails with the same key."""
    t_end = time.time() + budget
    best = list(choices)

    def fails(c):
        if time.time() > t_end:
            return None
        try:
            case, used = case_of(check, choices=c)
            r = run_case(check, case, ctx)
        except Exception:
            return None
        if any(k == key for k, _ in r.findings):
            return used
        return None

    def size(c):
        return (len(c), sum(c))

    improved = True
    while improved and time.time() < t_end:
        improved = False
        n = len(best)
        k = max(1, n // 2)
        while k >= 1 and time.time() < t_end:
            i = 0
            while i < len(best) and time.time() < t_end:
                c = best[:i] + best[i + k:]
                u = fails(c)
                if u is not None and size(u) < size(best):
                    best = u
                    improved = True
                else:
                    i += k
            k //= 2
        i = 0
        while i < len(best) and time.time() < t_end:
            if best[i] > 0:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v >= best[i]:
                        continue
                    c = list(best)
                    c[i] = v
                    u = fails(c)
                    if u is not None and size(u) < size(best):
                        best = u
                        improved = True
                        break
            i += 1
    return best


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"]]


def main(check):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        bins = B.build(check.flavour, check.drivers, check.cli,
                       helpers=check.helpers)
        for extra in getattr(check, "also", ()):
            fl, drv, cli, prefix = extra
            for k, v in B.build(fl, drv, cli).items():
                bins[prefix + k] = v
    except B.BuildError as e:
        print("BUILD FAILED (no verdict):\n%s" % e)
        sys.exit(2)
    opts = {"tier": tier, "seed": seed}
    if "--replay" in sys.argv:
        sys.exit(replay(check, sys.argv[sys.argv.index("--replay") + 1],
                        bins, opts))
    total = check.quick_cases if tier == "quick" else check.thorough_cases
    span = check.quick_s if tier == "quick" else check.thorough_s
    if os.environ.get("VERIF_CASES"):
        total = int(os.environ["VERIF_CASES"])
    if os.environ.get("VERIF_SPAN"):
        span = float(os.environ["VERIF_SPAN"])
    t_run = time.time()
    stop_at = t_run + span
    known = {}
    for e in load_known():
        if e["property"] == check.id:
            known[e["key"]] = e
    q = mp.Queue()
    flag = mp.Value("b", 0)
    nw = min(WORKERS, total)
    procs = [mp.Process(target=_worker, args=(
        check, bins, opts, seed, w, nw, total, stop_at, q, flag))
        for w in range(nw)]
    for p in procs:
        p.start()
    evals = 0
    seen = set()
    nontrivial = set()
    labels = {}
    skips = {}
    samples = {}
    failures = {}
    known_hits = {}
    error = None
    done = 0
    while done < nw:
        try:
            m = q.get(timeout=check.case_timeout + span + 300)
        except queue.Empty:
            error = "a worker gave no sign of life"
            break
        if m[0] == "done":
            done += 1
            continue
        if m[0] == "error":
            error = m[2]
            flag.value = 1
            continue
        _, i, h, nt, labs, skip, findings, choices, case = m
        evals += 1
        seen.add(h)
        if skip:
            skips[skip] = skips.get(skip, 0) + 1
        if nt and not skip:
            nontrivial.add(h)
        for l in labs:
            labels[l] = labels.get(l, 0) + 1
        if case is not None and nt and not findings and len(samples) < 40:
            samples[i] = case
        for key, msg in findings:
            if key in known:
                known_hits.setdefault(key, msg)
                continue
            if key not in failures or i < failures[key][0]:
                failures[key] = (i, choices, case, msg)
            if len(failures) >= 1:
                flag.value = 1
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    if error and not failures:
        print("CHECK ERROR (no verdict):\n%s" % error)
        sys.exit(2)

    confirmed = []
    for key, (i, choices, case, msg) in sorted(failures.items())[:3]:
        ctx = Ctx(bins, opts)
        try:
            if choices is not None and key != "hang":
                choices = shrink(check, choices, key, ctx)
                case, _ = case_of(check, choices=choices)
            # replay: the failure has to come back every time
            times = 1 if key == "hang" else 3
            ok = 0
            last = msg
            for _ in range(times):
                r = run_case(check, case, ctx)
                hit = [m2 for k2, m2 in r.findings if k2 == key]
                if hit:
                    ok += 1
                    last = hit[0]
            if ok == 0 and choices is not None:
                # depends on the state of the process: not believed
                print("note: failure %r of case %d did not replay; "
                      "ignored: %s" % (key, i, msg))
                continue
            if ok < times and not getattr(check, "nondeterministic", False):
                print("note: failure %r of case %d replayed %d of %d times"
                      % (key, i, ok, times))
                if ok == 0:
                    continue
            rdir = os.path.join(VERIF, "replays", check.id)
            os.makedirs(rdir, exist_ok=True)
            name = hashlib.sha1(json.dumps(
                [key, case], sort_keys=True, default=str).encode()
            ).hexdigest()[:12]
            path = os.path.join(rdir, name + ".json")
            with open(path, "w") as f:
                json.dump({"property": check.id, "key": key, "message": last,
                           "seed": seed, "index": i, "choices": choices,
                           "case": case}, f, indent=1, default=str)
            confirmed.append((key, last, path))
        finally:
            ctx.close()
    wall = time.time() - t0
    sample_list = []
    for i in sorted(samples)[:3]:
        s = json.dumps(check.describe(samples[i]), default=str)
        sample_list.append(json.loads(s) if len(s) < 6000 else s[:6000])
    ev = {
        "property": check.id, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontrivial),
            "rule": check.rule,
            "samples": sample_list,
            "distinct": len(seen),
            "labels": dict(sorted(labels.items())),
            "discarded": skips,
            "explore_s": round(time.time() - t_run, 1),
            "known_findings_seen": sorted(known_hits),
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 1),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key in sorted(known):
        # a listed finding is reported whether or not this run met it
        print("KNOWN-FINDING: property=%s %s%s" % (
            check.id, known[key]["what"],
            "" if key in known_hits else " (not met in this run)"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s"
          % (check.id, tier, seed, evals, len(nontrivial), wall))
    for l, c in sorted(labels.items()):
        print("   %-40s %d" % (l, c))
    if skips:
        print("   discarded: %s" % skips)
    if confirmed:
        for key, msg, path in confirmed:
            print("[%s] %s" % (key, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (check.id, path))
        sys.exit(1)
    if len(nontrivial) < check.min_nontrivial:
        print("CHECK ERROR: only %d non-trivial cases" % len(nontrivial))
        sys.exit(2)
    sys.exit(0)


def replay(check, path, bins, opts):
    with open(path) as f:
        rec = json.load(f)
    case = rec["case"]
    if rec.get("choices") is not None:
        case, _ = case_of(check, choices=rec["choices"])
    ctx = Ctx(bins, opts)
    try:
        r = run_case(check, case, ctx)
    finally:
        ctx.close()
    if r.findings:
        for key, msg in r.findings:
            print("[%s] %s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    print("did not fail")
    return 0
