"""Shared plumbing: paths, seeds, tiers, known findings, evidence, process helpers."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, fcntl, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NCPU = min(8, os.cpu_count() or 1)


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return os.environ.get("VERIF_TIER", "quick")


class CheckError(Exception):
    """The check itself could not decide (tool failure): exit 2, never a verdict."""


class Timeout(Exception):
    pass


def run(cmd, cwd=None, timeout=600, env=None, input=None, text=True, check=False):
    """Run in its own process group with a hard timeout; returns (rc, stdout, stderr)."""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                         text=text, errors="replace" if text else None)
    try:
        out, err = p.communicate(input=input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        raise Timeout("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200] if isinstance(cmd, list) else cmd[:200]))
    if check and p.returncode != 0:
        raise CheckError("command failed rc=%s: %s\n%s\n%s" % (p.returncode, cmd, out[-3000:], err[-3000:]))
    return p.returncode, out, err


class Scratch:
    """A scratch directory removed on exit."""
    def __init__(self, tag):
        self.path = tempfile.mkdtemp(prefix="vf-%s-" % tag, dir=os.environ.get("TMPDIR", "/tmp"))

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.path, ignore_errors=True)
        else:
            print("kept scratch", self.path, file=sys.stderr)


def load_known(prop):
    """Known findings for a property: list of dicts {key, what}. Lines of known_findings.txt:
       known: property=<id> key=<regex, anchored at both ends> :: <what fails>"""
    res = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", ln)
            if m and m.group(1) == prop:
                res.append({"re": re.compile("^(?:" + m.group(2) + ")$"), "key": m.group(2), "what": m.group(3).strip()})
    return res


class Report:
    """Collects violations (each with a stable key), known findings and coverage for one property."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.notes = []
        self.rule = ""
        self.assumptions = []
        self.inconclusive = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def max(self, name, v):
        self.counters[name] = max(self.counters.get(name, v), v)

    def ok(self, klass, n=1, sample=None):
        """n executions were observed and judged; klass identifies the distinct non-trivial behaviour seen."""
        self.evals += n
        if klass is not None:
            self.distinct.add(klass)
        if sample is not None and len(self.samples) < 40:
            self.samples.append(sample)

    def violation(self, key, detail, replay):
        """key: stable identification of what failed (input/call site/history).  replay: text of a reproducer."""
        for k in self.known:
            if k["re"].match(key):
                self.known_hit.setdefault(k["key"], (k["what"], key))
                self.count("known_finding_hits")
                return False
        if key not in self.viol:
            self.viol[key] = (detail, replay)
        return True

    def absorb(self, o):
        """Merge the observations of a shard."""
        self.evals += o.evals
        self.distinct |= o.distinct
        for x in o.samples:
            if len(self.samples) < 40:
                self.samples.append(x)
        for k, v in o.counters.items():
            if k.startswith("max_"):
                self.max(k, v)
            else:
                self.count(k, v)
        for k, v in o.viol.items():
            self.viol.setdefault(k, v)
        for k, v in o.known_hit.items():
            self.known_hit.setdefault(k, v)
        self.inconclusive += o.inconclusive

    def finish(self):
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        rdir = os.path.join(ev_dir, "replay")
        vlist = []
        for kk in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s [observed: %s]" % (self.prop, self.known_hit[kk][0], self.known_hit[kk][1]))
        if self.viol:
            os.makedirs(rdir, exist_ok=True)
        shown = 0
        for key, (detail, replay) in self.viol.items():
            name = "%s-%s.txt" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                f.write("property: %s\nseed: %d tier: %s\nkey: %s\n\n%s\n\n--- replay ---\n%s\n" %
                        (self.prop, seed(), tier(), key, detail, replay))
            vlist.append({"key": key, "detail": detail[:1500], "replay": path})
            if shown < 25:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  key=%s :: %s" % (key, detail[:400].replace("\n", " | ")))
                shown += 1
        if self.evals == 0 and not self.viol:
            raise CheckError("check observed nothing")
        ev = {
            "property": self.prop, "tier": tier(), "seed": seed(), "level": "exploration",
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples[:40] or sorted(map(str, self.distinct))[:40],
                "counters": self.counters,
                "inconclusive": self.inconclusive[:20],
                "known_findings_observed": sorted(self.known_hit),
            },
            "assumptions": self.assumptions,
            "violations": vlist[:50],
            "wall_s": round(time.time() - self.t0, 2),
        }
        tmp = os.path.join(ev_dir, ".%s.tmp" % self.prop)
        json.dump(ev, open(tmp, "w"), indent=1, default=str)
        os.replace(tmp, os.path.join(ev_dir, "%s.json" % self.prop))
        print("%s: %d executions judged, %d distinct behaviours, %d violations, %d known, %.1fs" %
              (self.prop, self.evals, len(self.distinct), len(self.viol), len(self.known_hit), time.time() - self.t0))
        return 1 if self.viol else 0


def pmap(fn, items, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def shards(rep, fn, n=NCPU, args=()):
    """Run fn(report, random.Random, shard_index, *args) in n forked processes and merge what they observed."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    q = ctx.Queue()

    def work(i):
        try:
            r = Report(rep.prop)
            fn(r, random.Random("%s/%d/%d/%s" % (rep.prop, seed(), i, fn.__name__)), i, *args)
            q.put((i, r, None))
        except BaseException as e:
            import traceback
            q.put((i, None, traceback.format_exc()))
        finally:
            q.close(); q.join_thread(); os._exit(0)

    ps = [ctx.Process(target=work, args=(i,)) for i in range(n)]
    sys.stdout.flush()
    for p in ps:
        p.start()
    res = {}
    err = None
    while len(res) < n:
        try:
            i, r, e = q.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                raise CheckError("a shard died without a result")
            continue
        if e:
            err = err or e
        res[i] = r
    for p in ps:
        p.join()
    if err:
        raise CheckError(err)
    for i in range(n):
        rep.absorb(res[i])
